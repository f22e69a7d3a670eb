#pragma once
#include <spdlog/spdlog.h>
namespace spdlog { inline std::shared_ptr<logger> stdout_color_mt(const std::string& n) { return sim_register(n, false); } }
