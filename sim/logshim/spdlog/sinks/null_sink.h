#pragma once
#include <spdlog/spdlog.h>
namespace spdlog { inline std::shared_ptr<logger> null_logger_mt(const std::string& n) { return sim_register(n, true); } }
