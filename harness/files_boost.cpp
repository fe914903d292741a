#include <boost/json/src.hpp>
#include <valijson/adapters/boost_json_adapter.hpp>
#include <valijson/utils/boost_json_utils.hpp>
#include "files.hpp"

static RegisterReader reg("boost", readFiles<valijson::adapters::BoostJsonAdapter, boost::json::value>);
