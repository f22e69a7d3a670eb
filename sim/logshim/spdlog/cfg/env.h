#pragma once
namespace spdlog { namespace cfg { inline void load_env_levels() {} } }
