// Stand-in for Thermo4PFM (not installed here).  The thermodynamic functions themselves are that library's; here they are
// uninterpreted functions of all their arguments (free energies with consistent derivatives), so that what is decided about
// the code calling them holds for any material.
#ifndef VERIF_THERMO_H
#define VERIF_THERMO_H
#include <string>
#include <vector>
#include "verif.h"
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/json_parser.hpp>
#define GASCONSTANT_R_JPKPMOL 8.314472
namespace Thermo4PFM
{
enum class PhaseIndex { phaseL = 0, phaseA = 1, phaseB = 2 };
enum class EnergyInterpolationType { LINEAR, PBG, HARMONIC, UNDEFINED };
enum class ConcInterpolationType { LINEAR, PBG, HARMONIC, UNDEFINED };
inline char energyInterpChar(EnergyInterpolationType t)
{
   switch (t) {
      case EnergyInterpolationType::LINEAR: return 'l';
      case EnergyInterpolationType::PBG: return 'p';
      case EnergyInterpolationType::HARMONIC: return 'h';
      default: ::verif_stop("invalid interpolation type", "thermo", 0); return 'u';
   }
}
inline char concInterpChar(ConcInterpolationType t)
{
   switch (t) {
      case ConcInterpolationType::LINEAR: return 'l';
      case ConcInterpolationType::PBG: return 'p';
      case ConcInterpolationType::HARMONIC: return 'h';
      default: ::verif_stop("invalid interpolation type", "thermo", 0); return 'u';
   }
}
inline double interp_char(char t, const double phi)
{
   double p = phi < 0. ? double(0.) : phi > 1. ? double(1.) : phi;
   switch (t) {
      case 'p': return p * p * p * (10. - 15. * p + 6. * p * p);
      case 'h': return p * p * (3. - 2. * p);
      default: return p;
   }
}
inline double interp_func(EnergyInterpolationType t, const double phi) { return interp_char(energyInterpChar(t), phi); }
inline double interp_func(ConcInterpolationType t, const double phi) { return interp_char(concInterpChar(t), phi); }
inline double xlogx(const double x) { return x * log(x); }
static inline double xlogx_deriv(const double x) { return log(x) + 1.; }
inline bool checkSublattice(boost::property_tree::ptree&) { return verif::cfg("sublattice", 0); }

// NC compositions, NP phases
template <int NC, int NP> class FEModel
{
 public:
   template <class... A> explicit FEModel(A&&...) {}
   std::vector<double> par[3];      // parameters of each phase, where the constructor is given them
   virtual ~FEModel() {}
   static const char* phase(PhaseIndex p) { return p == PhaseIndex::phaseL ? "fL" : p == PhaseIndex::phaseA ? "fA" : "fB"; }
   static std::vector<double> args(const double T, const double* c)
   {
      std::vector<double> a(1, T);
      for (int i = 0; i < NC; i++) a.push_back(c[i]);
      return a;
   }
   std::vector<double> pargs(const double T, const double* c, const PhaseIndex p) const
   {
      std::vector<double> a(args(T, c));
      for (auto& x : par[(int)p]) a.push_back(x);
      return a;
   }
   double computeFreeEnergy(const double T, const double* const c, const PhaseIndex p, const bool gp = false)
   {
      double f = verif::fn(phase(p), pargs(T, c, p));
      if (gp) {
         double d[NC];
         computeDerivFreeEnergy(T, c, p, d);
         for (int i = 0; i < NC; i++) f = f - d[i] * c[i];
      }
      return f;
   }
   void computeDerivFreeEnergy(const double T, const double* const c, const PhaseIndex p, double* d)
   {
      for (int i = 0; i < NC; i++) d[i] = verif::fn(std::string(phase(p)) + "'" + std::to_string(i + 1), pargs(T, c, p));
   }
   void computeSecondDerivativeFreeEnergy(const double T, const double* const c, const PhaseIndex p, double* d)
   {
      for (int i = 0; i < NC; i++)
         for (int j = 0; j < NC; j++) {
            int a = i < j ? i : j, b = i < j ? j : i;
            d[i * NC + j] = verif::fn(std::string(phase(p)) + "'" + std::to_string(a + 1) + "'" + std::to_string(b + 1), pargs(T, c, p));
         }
   }
   int computePhaseConcentrations(const double T, const double* const c, const double* const h, double* x)
   {
      std::vector<double> a(args(T, c));
      for (int i = 0; i < (NP == 2 ? 1 : NP); i++) a.push_back(h[i]);
      for (auto& p : par) for (auto& v : p) a.push_back(v);
      for (int i = 0; i < NC * NP; i++) x[i] = verif::fn("kks" + std::to_string(i), a);
      return 1;
   }
   bool computeCeqT(const double T, double* ceq, const int = 20, const bool = false)
   {
      for (int i = 0; i < NC * 2; i++) ceq[i] = verif::fn("ceq" + std::to_string(i), std::vector<double>(1, T));
      return true;
   }
   bool computeCeqT(const double T, const double, const double, double* ceq, const int = 20, const bool = false) { return computeCeqT(T, ceq); }
   void preRunDiagnostics(const double = 0., const double = 1., const double = 0.) {}
   template <class... A> void energyVsPhiAndC(A&&...) {}
   template <class... A> void printEnergyVsComposition(A&&...) {}
   template <class... A> double fchem(A&&...) { return 0.; }
};
#define VERIF_FE(N, NC, NP) class N : public FEModel<NC, NP> { public: using FEModel<NC, NP>::FEModel; };
VERIF_FE(CALPHADFreeEnergyFunctionsBinary, 1, 2)
VERIF_FE(CALPHADFreeEnergyFunctionsBinary2Ph1Sl, 1, 2)
VERIF_FE(CALPHADFreeEnergyFunctionsBinaryThreePhase, 1, 3)
VERIF_FE(CALPHADFreeEnergyFunctionsBinary3Ph2Sl, 1, 3)
VERIF_FE(CALPHADFreeEnergyFunctionsTernary, 2, 2)
VERIF_FE(KKSFreeEnergyFunctionDiluteBinary, 1, 2)
class QuadraticFreeEnergyFunctionsBinary : public FEModel<1, 2>
{
 public:
   QuadraticFreeEnergyFunctionsBinary(const double Tref, const double Al, const double ceql, const double ml, const double Aa, const double ceqa, const double ma,
                                      const EnergyInterpolationType = EnergyInterpolationType::LINEAR, const ConcInterpolationType = ConcInterpolationType::LINEAR)
   {
      par[0] = {Tref, Al, ceql, ml};
      par[1] = {Tref, Aa, ceqa, ma};
   }
};
class QuadraticFreeEnergyFunctionsTernaryThreePhase : public FEModel<2, 3>
{
 public:
   QuadraticFreeEnergyFunctionsTernaryThreePhase(const double Al[2], const double ceql[2], const double Aa[2], const double ceqa[2], const double Ab[2], const double ceqb[2],
                                                 const EnergyInterpolationType = EnergyInterpolationType::LINEAR, const ConcInterpolationType = ConcInterpolationType::LINEAR)
   {
      par[0] = {Al[0], Al[1], ceql[0], ceql[1]};
      par[1] = {Aa[0], Aa[1], ceqa[0], ceqa[1]};
      par[2] = {Ab[0], Ab[1], ceqb[0], ceqb[1]};
   }
};
}  // namespace Thermo4PFM
#endif
