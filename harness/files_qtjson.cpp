#include <QJsonDocument>
#include <valijson/adapters/qtjson_adapter.hpp>
#include <valijson/utils/qtjson_utils.hpp>
#include "files.hpp"

static RegisterReader reg("qtjson", readFiles<valijson::adapters::QtJsonAdapter, QJsonValue>);
