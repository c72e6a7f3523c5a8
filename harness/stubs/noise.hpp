// The drawn noise is replaced (linker --wrap) by values the harness chooses: standard normal draw number k is noise_value(k).
#pragma once
#include "Normaldistribution.hpp"
extern double (*noise_source)(int k);
extern std::vector<double> noise_deviations; // the standard deviations asked for
void noise_reset();
