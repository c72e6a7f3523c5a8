#include <vector>
#include "noise.hpp"
static double fixed(int k) { return k % 2 ? -0.25 : 0.5; }
double (*noise_source)(int k) = fixed;
std::vector<double> noise_deviations;
static int drawn = 0;
void noise_reset() { drawn = 0; noise_deviations.clear(); }
static double draw(double sd) { noise_deviations.push_back(sd); return sd * noise_source(drawn++); }
extern "C" double __wrap__ZN3Aux18Normaldistribution10get_sampleEd(Aux::Normaldistribution *, double sd) { return draw(sd); }
extern "C" double __wrap__ZN3Aux18Normaldistribution10get_sampleEdd(Aux::Normaldistribution *, double mean, double sd) { return mean + draw(sd); }
