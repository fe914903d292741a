#include <boost/json/src.hpp>
#include <valijson/adapters/boost_json_adapter.hpp>
#include "drv_doc.hpp"

namespace {
struct Ops
{
    typedef valijson::adapters::BoostJsonAdapter Adapter;
    typedef boost::json::value Document;
    static Document *parse(const std::string &text)
    {
        boost::system::error_code ec;
        // some documents live in a resource of their own
        boost::json::storage_ptr sp;
        if (text.size() % 2) {
            sp = boost::json::make_shared_resource<boost::json::monotonic_resource>();
        }
        std::unique_ptr<Document> d(new Document(boost::json::parse(text, ec, sp)));
        return ec ? nullptr : d.release();
    }
    static void poison(Document &d)
    {
        if (d.is_object()) {
            for (auto &m : d.as_object()) {
                poison(m.value());
            }
            d.as_object()["poison"] = true;
        } else if (d.is_array()) {
            for (auto &x : d.as_array()) {
                poison(x);
            }
            d.as_array().push_back("poison");
        } else if (d.is_string()) {
            std::fill(d.as_string().begin(), d.as_string().end(), '#');
            d = "poisoned";
        } else {
            d = "poisoned";
        }
    }
};
RegisterLib reg("boost", parseDoc<Ops>, blankTree<Ops>);
}  // namespace
