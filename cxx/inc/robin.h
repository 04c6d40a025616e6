// Robin boundary conditions with symbolic coefficients
#ifndef VERIF_ROBIN_H
#define VERIF_ROBIN_H
#include "stubs.h"
#include "fixture.h"
namespace fx {
// a u + b du/dn = g on the faces of the domain
struct Bc : public solv::RobinBcCoefStrategy {
   int ext = 0;
   static R coef(const char* n, int loc, const hier::Index& i) { return n[2] == 'g' ? real(at(lab("bcg", loc), i)) : n[2] == 'a' ? real(at(lab("bca", loc), i), R(0.1), R(1.)) : real(at(lab("bcb", loc), i), R(0.1), R(1.)); }
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double> >& a, const std::shared_ptr<pdat::ArrayData<double> >& b, const std::shared_ptr<pdat::ArrayData<double> >& g, const std::shared_ptr<hier::Variable>&, const hier::Patch& p,
                   const hier::BoundaryBox& bb, const double = 0.0) const
   {
      LevScope sc;
      setlev(p.getPatchLevelNumber());
      auto put = [&](const std::shared_ptr<pdat::ArrayData<double> >& x, const char* n) {
         if (x) for (auto& i : x->getBox()) (*x)(i, 0) = coef(n, bb.getLocationIndex(), i);
      };
      put(a, "bca");
      put(b, "bcb");
      put(g, "bcg");
   }
   hier::IntVector numberOfExtensionsFillable() const { return hier::IntVector(tbox::Dimension(NDIM), ext); }
};
inline hier::Box dom(const Mesh& m) { hier::Box b(m.domain); for (int l = 0; l < lev; l++) b.refine(hier::IntVector(tbox::Dimension(NDIM), 2)); return b; }
inline hier::Index up(const hier::Index& i) { hier::Index r(i); for (int a = 0; a < NDIM; a++) r[a] = r[a] >= 0 ? r[a] / 2 : -((1 - r[a]) / 2); return r; }
}
#endif
