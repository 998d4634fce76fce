#include "scenario.h"
std::map<int, std::string>& probe_names() { static std::map<int, std::string> m; return m; }
