#include <json/json.h>
#include <valijson/adapters/jsoncpp_adapter.hpp>
#include <valijson/utils/jsoncpp_utils.hpp>
#include "files.hpp"

static RegisterReader reg("jsoncpp", readFiles<valijson::adapters::JsonCppAdapter, Json::Value>);
