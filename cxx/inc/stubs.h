// stand-ins for collaborators of the class under test
#ifndef VERIF_STUBS_H
#define VERIF_STUBS_H
#include "fixture.h"
#include "FreeEnergyStrategy.h"
namespace fx {
// free energies named after cells; the driving force added is a named amount too
class StubFreeEnergy : public FreeEnergyStrategy
{
 public:
   std::vector<int> seen;      // ids given to addDrivingForce (temperature, phase, eta, conc, fl, fa, fb)
   int T = -1;
   bool gp = true;
   void put(hier::Patch& p, int t, int id, const char* n, bool g)
   {
      LevScope sc;
      setlev(p.getPatchLevelNumber());
      T = t;
      gp = g;
      auto d = cd(p, id);
      for (auto& i : d->getGhostBox()) (*d)(pdat::CellIndex(i), 0) = real(at(n, i));
   }
   void computeFreeEnergyLiquid(hier::Patch& p, const int t, const int id, const bool g) { put(p, t, id, "fl", g); }
   void computeFreeEnergySolidA(hier::Patch& p, const int t, const int id, const bool g) { put(p, t, id, "fa", g); }
   void computeFreeEnergySolidB(hier::Patch& p, const int t, const int id, const bool g) { put(p, t, id, "fb", g); }
   // what is added depends on the energies the caller says it computed
   static R drive(const hier::Index& i, int k, const R& l, const R& a, const R& b) { return real(at("drive", i, k)) + l - 2. * a + 3. * b; }
   R lval(hier::Patch& p, int id, const hier::Index& i) { return id < 0 || id >= 90 ? R(0.) : (*cd(p, id))(pdat::CellIndex(i), 0); }
   double time = 0.;
   void addDrivingForce(const double t, hier::Patch& p, const int tid, const int phase, const int eta, const int conc, const int fl, const int fa, const int fb, const int rhs)
   {
      LevScope sc;
      setlev(p.getPatchLevelNumber());
      time = t;
      seen = {tid, phase, eta, conc, fl, fa, fb};
      auto d = cd(p, rhs);
      for (auto& i : p.getBox()) for (int k = 0; k < d->getDepth(); k++) (*d)(pdat::CellIndex(i), k) = (*d)(pdat::CellIndex(i), k) + drive(i, k, lval(p, fl, i), lval(p, fa, i), lval(p, fb, i));
   }
   void computeSecondDerivativeEnergyPhaseL(const double, const std::vector<double>&, std::vector<double>&, const bool = true) {}
   void computeSecondDerivativeEnergyPhaseA(const double, const std::vector<double>&, std::vector<double>&, const bool = true) {}
   void preRunDiagnostics(const double) {}
};
// data of one depth of a field as a plain array for a kernel
inline std::vector<double> spacing(const Mesh& m) { std::vector<double> d; for (int a = 0; a < NDIM; a++) d.push_back(m.dx[a]); return d; }
#if NDIM == 3
#define VERIF_BOX(b) (b).lower(0), (b).upper(0), (b).lower(1), (b).upper(1), (b).lower(2), (b).upper(2)
#define VERIF_SIDES(s) (s)->getPointer(0), (s)->getPointer(1), (s)->getPointer(2)
#define VERIF_SIDESK(s, k) (s)->getPointer(0, k), (s)->getPointer(1, k), (s)->getPointer(2, k)
#else
#define VERIF_BOX(b) (b).lower(0), (b).upper(0), (b).lower(1), (b).upper(1)
#define VERIF_SIDES(s) (s)->getPointer(0), (s)->getPointer(1)
#define VERIF_SIDESK(s, k) (s)->getPointer(0, k), (s)->getPointer(1, k)
#endif
}  // namespace fx
#endif
