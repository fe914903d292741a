#include <valijson/adapters/rapidjson_adapter.hpp>
#include "drv_doc.hpp"

namespace {
struct Ops
{
    typedef valijson::adapters::RapidJsonAdapter Adapter;
    typedef rapidjson::Document Document;
    static Document *parse(const std::string &text)
    {
        std::unique_ptr<Document> d(new Document);
        const unsigned flags = rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag;
        if (text.size() % 2) {
            // strings that refer to the text they were read from
            char *p = static_cast<char *>(d->GetAllocator().Malloc(text.size() + 1));
            memcpy(p, text.c_str(), text.size() + 1);
            d->ParseInsitu<flags>(p);
        } else {
            d->Parse<flags>(text.data(), text.size());
        }
        return d->HasParseError() ? nullptr : d.release();
    }
    static void scrub(const rapidjson::Value &v)
    {
        if (v.IsString()) {
            memset(const_cast<char *>(v.GetString()), '#', v.GetStringLength());
        } else if (v.IsObject()) {
            for (auto it = v.MemberBegin(); it != v.MemberEnd(); ++it) {
                scrub(it->name);
                scrub(it->value);
            }
        } else if (v.IsArray()) {
            for (const auto &x : v.GetArray()) {
                scrub(x);
            }
        }
    }
    static void poison(Document &d)
    {
        scrub(d);
        rapidjson::Document fresh;
        d.Swap(fresh);
        d.SetArray();
    }
};
RegisterLib reg("rapidjson", parseDoc<Ops>, blankTree<Ops>);
}  // namespace
