#include <boost/property_tree/ptree.hpp>
#include <valijson/adapters/property_tree_adapter.hpp>
#include <valijson/utils/property_tree_utils.hpp>
#include "files.hpp"

static RegisterReader reg("ptree", readFiles<valijson::adapters::PropertyTreeAdapter, boost::property_tree::ptree>);
