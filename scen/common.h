#ifndef SCEN_COMMON_H
#define SCEN_COMMON_H
#include "sim.h"
#include "sfw.h"
#include <string>
#include <vector>
#include <cstring>
#include <map>

// RAII registration of nothing: helpers shared by the scenario files.
namespace scn {
// An ASCII/unicode text from the workload stream.
inline std::string text(uint32_t maxlen, const char *alphabet = "abcxyz01") {
	std::string s;
	uint32_t n = sim::wchoose(maxlen + 1);
	size_t k = strlen(alphabet);
	for (uint32_t i = 0; i < n; i++) s.push_back(alphabet[sim::wchoose((uint32_t)k)]);
	return s;
}
} // namespace scn
#endif
