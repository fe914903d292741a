#include <Poco/JSON/Parser.h>
#include <valijson/adapters/poco_json_adapter.hpp>
#include <valijson/utils/poco_json_utils.hpp>
#include "files.hpp"

static RegisterReader reg("poco", readFiles<valijson::adapters::PocoJsonAdapter, Poco::Dynamic::Var>);
