#include <yaml-cpp/yaml.h>
#include <valijson/adapters/yaml_cpp_adapter.hpp>
#include <valijson/utils/yaml_cpp_utils.hpp>
#include "files.hpp"

static RegisterReader reg("yaml", readFiles<valijson::adapters::YamlCppAdapter, YAML::Node>);
