#pragma once
#include <string>
#include <vector>
struct MtApi { void (*scenario)(const std::string&); };
MtApi* mt_t(); MtApi* mt_c(); void script_rand0();
inline std::vector<std::string> split_(const std::string& s, char d) { std::vector<std::string> v; size_t p = 0; for (;;) { size_t q = s.find(d, p); v.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } return v; }
