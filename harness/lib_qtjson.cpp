#include <QJsonDocument>
#include <valijson/adapters/qtjson_adapter.hpp>
#include "drv_doc.hpp"

namespace {
struct Ops
{
    typedef valijson::adapters::QtJsonAdapter Adapter;
    typedef QJsonValue Document;
    static Document *parse(const std::string &text)
    {
        // QJsonDocument takes objects and arrays only
        QJsonDocument doc = QJsonDocument::fromJson(QByteArray::fromStdString("[" + text + "]"));
        if (!doc.isArray() || doc.array().size() != 1) {
            return nullptr;
        }
        return new Document(doc.array().at(0));
    }
    static void poison(Document &d)
    {
        if (d.isObject()) {
            QJsonObject o = d.toObject();
            o.insert("poison", true);
            d = o;
        } else {
            d = QJsonValue(QString("poisoned"));
        }
    }
};
RegisterLib reg("qtjson", parseDoc<Ops>, blankTree<Ops>);
}  // namespace
