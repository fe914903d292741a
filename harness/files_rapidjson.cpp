#include <rapidjson/document.h>
#include <valijson/adapters/rapidjson_adapter.hpp>
#include <valijson/utils/rapidjson_utils.hpp>
#include "files.hpp"

static RegisterReader reg("rapidjson", readFiles<valijson::adapters::RapidJsonAdapter, rapidjson::Document>);
