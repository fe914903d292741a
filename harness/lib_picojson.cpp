#include <picojson.h>
#include <valijson/adapters/picojson_adapter.hpp>
#include "drv_doc.hpp"

namespace {
struct Ops
{
    typedef valijson::adapters::PicoJsonAdapter Adapter;
    typedef picojson::value Document;
    static Document *parse(const std::string &text)
    {
        std::unique_ptr<Document> d(new Document);
        std::string err = picojson::parse(*d, text);
        return err.empty() ? d.release() : nullptr;
    }
    static void poison(Document &d)
    {
        if (d.is<picojson::object>()) {
            for (auto &m : d.get<picojson::object>()) {
                poison(m.second);
            }
            d.get<picojson::object>()["poison"] = picojson::value(true);
        } else if (d.is<picojson::array>()) {
            for (auto &x : d.get<picojson::array>()) {
                poison(x);
            }
            d.get<picojson::array>().push_back(picojson::value("poison"));
        } else {
            d = picojson::value("poisoned");
        }
    }
};
RegisterLib reg("picojson", parseDoc<Ops>, blankTree<Ops>);
}  // namespace
