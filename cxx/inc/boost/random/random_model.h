// random numbers: fresh unknowns within the range of the distribution
#ifndef VERIF_RANDOM_H
#define VERIF_RANDOM_H
#include "verif.h"
namespace boost
{
struct verif_rng { static int& count() { static int n = 0; return n; } explicit verif_rng(unsigned = 0) {} };
typedef verif_rng minstd_rand;
typedef verif_rng mt19937;
template <class T = double> struct uniform_real { double lo, hi; uniform_real(double a = 0., double b = 1.) : lo(a), hi(b) {}
   double draw(const std::string& n) const { return verif::real(n, lo, hi); } };
template <class T = double> struct normal_distribution { double mean, sigma; normal_distribution(double a = 0., double b = 1.) : mean(a), sigma(b) {}
   double draw(const std::string& n) const { return mean + sigma * verif::real(n); } };
template <class G, class D> struct variate_generator {
   D d;
   variate_generator(G, D dd) : d(dd) {}
   double operator()() { return d.draw("noise" + std::to_string(verif_rng::count()++)); }
};
}
#endif
