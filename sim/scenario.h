#pragma once
#include <map>
#include <string>
#include <vector>
#include "rt.h"

struct Scenario {
    const char* name;
    const char* desc;
    std::vector<std::pair<std::string, int>> props;   // property id, share of the runs
    void (*fn)(sim::Ctx&);
    std::vector<int> probes;
};
std::vector<Scenario>& scenarios();
std::map<int, std::string>& probe_names();
struct Register { Register(Scenario s) { scenarios().push_back(std::move(s)); } };
