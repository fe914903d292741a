#include <json/json.h>
#include <valijson/adapters/jsoncpp_adapter.hpp>
#include "drv_doc.hpp"

namespace {
struct Ops
{
    typedef valijson::adapters::JsonCppAdapter Adapter;
    typedef Json::Value Document;
    static Document *parse(const std::string &text)
    {
        std::unique_ptr<Document> d(new Document);
        Json::CharReaderBuilder builder;
        builder["collectComments"] = false;
        std::unique_ptr<Json::CharReader> reader(builder.newCharReader());
        std::string err;
        return reader->parse(text.data(), text.data() + text.size(), d.get(), &err) ? d.release() : nullptr;
    }
    static void poison(Document &d)
    {
        if (d.isObject()) {
            for (const auto &n : d.getMemberNames()) {
                poison(d[n]);
            }
            d["poison"] = true;
        } else if (d.isArray()) {
            for (auto &x : d) {
                poison(x);
            }
            d.append("poison");
        } else {
            d = Json::Value("poisoned");
        }
    }
};
RegisterLib reg("jsoncpp", parseDoc<Ops>, blankTree<Ops>);
}  // namespace
