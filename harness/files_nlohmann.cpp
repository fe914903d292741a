#include <nlohmann/json.hpp>
#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include <valijson/utils/nlohmann_json_utils.hpp>
#include "files.hpp"

static RegisterReader reg("nlohmann", readFiles<valijson::adapters::NlohmannJsonAdapter, nlohmann::json>);
