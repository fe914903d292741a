#include <picojson.h>
#include <valijson/adapters/picojson_adapter.hpp>
#include <valijson/utils/picojson_utils.hpp>
#include "files.hpp"

static RegisterReader reg("picojson", readFiles<valijson::adapters::PicoJsonAdapter, picojson::value>);
