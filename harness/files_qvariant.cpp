#include <QVariant>
#include <valijson/adapters/qvariant_adapter.hpp>
#include <valijson/utils/qvariant_utils.hpp>
#include "files.hpp"

static RegisterReader reg("qvariant", readFiles<valijson::adapters::QtVariantAdapter, QVariant>);
