#include <Poco/JSON/Parser.h>
#include <valijson/adapters/poco_json_adapter.hpp>
#include "drv_doc.hpp"

namespace {
struct Ops
{
    typedef valijson::adapters::PocoJsonAdapter Adapter;
    typedef Poco::Dynamic::Var Document;
    static Document *parse(const std::string &text)
    {
        try {
            // the parser takes objects and arrays only
            Poco::Dynamic::Var v = Poco::JSON::Parser().parse("[" + text + "]");
            return new Document(v.extract<Poco::JSON::Array::Ptr>()->get(0));
        } catch (Poco::Exception &) {
            return nullptr;
        }
    }
    static void poison(Document &d)
    {
        // in place: whoever shares a container with the document sees it change
        if (d.type() == typeid(Poco::JSON::Object::Ptr)) {
            Poco::JSON::Object::Ptr o = d.extract<Poco::JSON::Object::Ptr>();
            Poco::JSON::Object::NameList names;
            o->getNames(names);
            for (const auto &n : names) {
                Document x = o->get(n);
                poison(x);
                o->set(n, x);
            }
            o->set("poison", true);
        } else if (d.type() == typeid(Poco::JSON::Array::Ptr)) {
            Poco::JSON::Array::Ptr a = d.extract<Poco::JSON::Array::Ptr>();
            for (unsigned i = 0; i < a->size(); ++i) {
                Document x = a->get(i);
                poison(x);
                a->set(i, x);
            }
            a->add("poison");
        } else {
            d = std::string("poisoned");
        }
    }
};
RegisterLib reg("poco", parseDoc<Ops>, blankTree<Ops>);
}  // namespace
