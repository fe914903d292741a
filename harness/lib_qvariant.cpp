#include <QJsonArray>
#include <QJsonDocument>
#include <valijson/adapters/qvariant_adapter.hpp>
#include "drv_doc.hpp"

namespace {
struct Ops
{
    typedef valijson::adapters::QtVariantAdapter Adapter;
    typedef QVariant Document;
    static Document *parse(const std::string &text)
    {
        QJsonDocument doc = QJsonDocument::fromJson(QByteArray::fromStdString("[" + text + "]"));
        if (!doc.isArray() || doc.array().size() != 1) {
            return nullptr;
        }
        return new Document(doc.array().at(0).toVariant());
    }
    static void poison(Document &d) { d = QVariant(QString("poisoned")); }
};
RegisterLib reg("qvariant", parseDoc<Ops>, blankTree<Ops>);
}  // namespace
