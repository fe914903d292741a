// Implementation of Doc for one adapter.  Ops supplies:
//   typedef Adapter, typedef Document
//   static Document *parse(const std::string &text)   (nullptr: not parseable)
//   static void poison(Document &)
#pragma once
#include "drv.hpp"

// what a value can be converted to
template<typename Adapter>
nj casts(const Adapter &a)
{
    nj r;
    const bool may[] = {a.maybeArray(), a.maybeBool(), a.maybeDouble(), a.maybeInteger(), a.maybeNull(), a.maybeObject(), a.maybeString()};
    std::string m;
    for (bool x : may) {
        m += x ? 't' : 'f';
    }
    r["m"] = m;
    bool same = true;
    bool b = false;
    r["b"] = a.asBool(b) ? (b ? "t" : "f") : "x";
    try {
        const bool y = a.asBool();
        same = same && r["b"] == (y ? "t" : "f");
    } catch (const std::exception &) {
        same = same && r["b"] == "x";
    }
    double d = 0;
    const bool hasd = a.asDouble(d);
    r["d"] = hasd ? nj(d) : nj(nullptr);
    try {
        const double y = a.asDouble();
        same = same && hasd && y == d;
    } catch (const std::exception &) {
        same = same && !hasd;
    }
    int64_t i = 0;
    const bool hasi = a.asInteger(i);
    r["i"] = hasi ? nj(std::to_string(i)) : nj(nullptr);
    try {
        const int64_t y = a.asInteger();
        same = same && hasi && y == i;
    } catch (const std::exception &) {
        same = same && !hasi;
    }
    std::string s;
    const bool hass = a.asString(s);
    r["s"] = hass ? nj(s) : nj(nullptr);
    try {
        const std::string y = a.asString();
        same = same && hass && y == s;
    } catch (const std::exception &) {
        same = same && !hass;
    }
    r["same"] = same;
    try {
        const auto arr = a.asArray();
        int n = 0;
        for (auto it = arr.begin(); it != arr.end(); ++it) {
            ++n;
        }
        r["na"] = static_cast<int>(arr.size()) == n ? n : -2;
    } catch (const std::exception &) {
        r["na"] = -1;
    }
    try {
        const auto obj = a.asObject();
        int n = 0;
        for (auto it = obj.begin(); it != obj.end(); ++it) {
            ++n;
        }
        r["no"] = static_cast<int>(obj.size()) == n ? n : -2;
    } catch (const std::exception &) {
        r["no"] = -1;
    }
    int cnt = 0;
    const bool ga = a.applyToArray([&](const valijson::adapters::Adapter &) { ++cnt; return true; });
    r["ga"] = ga ? cnt : -1;
    cnt = 0;
    const bool go = a.applyToObject([&](const std::string &, const valijson::adapters::Adapter &) { ++cnt; return true; });
    r["go"] = go ? cnt : -1;
    return r;
}

template<typename Adapter>
nj walk(const Adapter &a)
{
    nj r;
    r["st"] = a.hasStrictTypes();
    r["cv"] = casts(a);
    // every strict predicate must agree with the tag
    int tags = (a.isNull() ? 1 : 0) + (a.isBool() ? 1 : 0) + (a.isInteger() ? 1 : 0) + (a.isDouble() ? 1 : 0) +
               (a.isString() ? 1 : 0) + (a.isArray() ? 1 : 0) + (a.isObject() ? 1 : 0);
    r["tags"] = tags;
    r["num"] = a.isNumber();
    if (a.isObject()) {
        r["t"] = "o";
        nj m = nj::array();
        const typename Adapter::Object o = a.getObject();
        size_t n = 0;
        for (const typename Adapter::ObjectMember member : o) {
            nj e;
            e["n"] = member.first;
            e["v"] = walk(member.second);
            // lookup must find the same member
            const auto it = o.find(member.first);
            e["f"] = it != o.end() && it->first == member.first && it->second.equalTo(member.second, true);
            m.push_back(e);
            if (++n > 10000) {
                break;
            }
        }
        r["m"] = m;
        r["sz"] = o.size();
        r["gsz"] = a.getObjectSize();
        r["miss"] = o.find("\x01no such member") == o.end();
        // callback iteration
        size_t cnt = 0;
        a.applyToObject([&](const std::string &, const valijson::adapters::Adapter &) { ++cnt; return true; });
        r["cb"] = cnt;
    } else if (a.isArray()) {
        r["t"] = "a";
        nj m = nj::array();
        const typename Adapter::Array arr = a.getArray();
        size_t n = 0;
        for (const Adapter el : arr) {
            m.push_back(walk(el));
            if (++n > 10000) {
                break;
            }
        }
        // random access by advance()
        bool adv = true;
        for (size_t i = 0; i < m.size(); ++i) {
            auto it = arr.begin();
            it.advance(static_cast<std::ptrdiff_t>(i));
            if (walk(Adapter(*it)) != m[i]) {
                adv = false;
            }
        }
        r["adv"] = adv;
        r["e"] = m;
        r["sz"] = arr.size();
        r["gsz"] = a.getArraySize();
        size_t cnt = 0;
        a.applyToArray([&](const valijson::adapters::Adapter &) { ++cnt; return true; });
        r["cb"] = cnt;
    } else if (a.isString()) {
        r["t"] = "s";
        r["s"] = a.getString();
        r["as"] = a.asString();
    } else if (a.isBool()) {
        r["t"] = "b";
        r["b"] = a.getBool();
        r["as"] = a.asBool();
    } else if (a.isInteger()) {
        r["t"] = "i";
        r["i"] = std::to_string(a.getInteger());
        r["as"] = std::to_string(a.asInteger());
        r["d"] = a.getNumber();
    } else if (a.isDouble()) {
        r["t"] = "d";
        r["d"] = a.getDouble();
    } else if (a.isNull()) {
        r["t"] = "n";
    } else {
        r["t"] = "?";
    }
    return r;
}

// strict types only: JSON text of an adapter tree
template<typename Adapter>
nj toPlain(const Adapter &a)
{
    if (a.isObject()) {
        nj o = nj::object();
        for (const typename Adapter::ObjectMember m : a.getObject()) {
            o[m.first] = toPlain(m.second);
        }
        return o;
    }
    if (a.isArray()) {
        nj r = nj::array();
        for (const Adapter el : a.getArray()) {
            r.push_back(toPlain(el));
        }
        return r;
    }
    if (a.isString()) {
        return a.getString();
    }
    if (a.isBool()) {
        return a.getBool();
    }
    if (a.isInteger()) {
        return a.getInteger();
    }
    if (a.isDouble()) {
        return a.getDouble();
    }
    return nullptr;
}

template<typename Ops>
struct DocImpl : Doc
{
    typedef typename Ops::Adapter Adapter;
    typedef typename Ops::Document Document;

    std::unique_ptr<Document> doc;
    Adapter ad;

    explicit DocImpl(Document *d) : doc(d), ad(*d) { }

    void populate(valijson::SchemaParser &p, valijson::Schema &s, Remotes *r) override
    {
        if (!r || (!r->enabled && !r->only_fetch && !r->only_free)) {
            p.populateSchema(ad, s);
            return;
        }
        std::map<const Document *, std::string> owner;
        std::function<const Document *(const std::string &)> fetch =
            [&](const std::string &uri) -> const Document * {
            if (r->throwing.count(uri)) {
                r->log.push_back({"fetch", uri, "throw"});
                throw std::runtime_error("fetch callback failed");
            }
            auto it = r->text.find(uri);
            Document *d = it == r->text.end() ? nullptr : Ops::parse(it->second);
            r->log.push_back({"fetch", uri, d ? "doc" : "null"});
            if (d) {
                owner[d] = uri;
                r->live++;
            }
            return d;
        };
        std::function<void(const Document *)> release = [&](const Document *d) {
            auto it = owner.find(d);
            if (it == owner.end()) {
                r->log.push_back({"free", "?", "unknown"});
                return;
            }
            r->log.push_back({"free", it->second, "ok"});
            owner.erase(it);
            r->live--;
            delete d;
        };
        if (r->only_fetch) {
            p.populateSchema(ad, s, fetch, nullptr);
        } else if (r->only_free) {
            p.populateSchema(ad, s, nullptr, release);
        } else {
            p.populateSchema(ad, s, fetch, release);
        }
    }

    bool validate(DrvValidator &v, const valijson::Subschema &s, valijson::ValidationResults *r) override
    {
        return v.validate(s, ad, r);
    }

    const valijson::adapters::Adapter &adapter() const override { return ad; }

    nj tree() const override { return walk(ad); }

    nj pointer(const std::string &ptr, bool strict) const override
    {
        if (strict) {
            return toPlain(valijson::internal::json_pointer::resolveJsonPointerStrict(ad, ptr));
        }
        return toPlain(valijson::internal::json_pointer::resolveJsonPointer(ad, ptr));
    }

    void poison() override { Ops::poison(*doc); }

    std::string dump() const override { return walk(ad).dump(); }
};

template<typename Ops>
std::unique_ptr<Doc> parseDoc(const std::string &text)
{
    typename Ops::Document *d = Ops::parse(text);
    if (!d) {
        return nullptr;
    }
    return std::unique_ptr<Doc>(new DocImpl<Ops>(d));
}

template<typename Ops>
nj blankTree()
{
    return walk(typename Ops::Adapter());
}
