#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include "drv_doc.hpp"

namespace {
struct Ops
{
    typedef valijson::adapters::NlohmannJsonAdapter Adapter;
    typedef nlohmann::json Document;
    static Document *parse(const std::string &text)
    {
        std::unique_ptr<Document> d(new Document(nlohmann::json::parse(text, nullptr, false)));
        return d->is_discarded() ? nullptr : d.release();
    }
    static void poison(Document &d)
    {
        if (d.is_structured()) {
            for (auto &x : d) {
                poison(x);
            }
            if (d.is_object()) {
                d["poison"] = true;
            } else {
                d.push_back("poison");
            }
        } else {
            d = "poisoned";
        }
    }
};
RegisterLib reg("nlohmann", parseDoc<Ops>, blankTree<Ops>);
}  // namespace
