// Containers that store every scalar as text.
#include <boost/property_tree/ptree.hpp>
#include <valijson/adapters/property_tree_adapter.hpp>
#include <valijson/adapters/yaml_cpp_adapter.hpp>
#include "drv_doc.hpp"

namespace {

std::string scalarText(const nj &j)
{
    return j.is_string() ? j.get<std::string>() : j.is_null() ? std::string() : j.dump();
}

struct Tree
{
    typedef valijson::adapters::PropertyTreeAdapter Adapter;
    typedef boost::property_tree::ptree Document;

    static Document make(const nj &j)
    {
        Document t;
        if (j.is_object()) {
            for (auto it = j.begin(); it != j.end(); ++it) {
                t.push_back(std::make_pair(it.key(), make(it.value())));
            }
        } else if (j.is_array()) {
            for (const auto &x : j) {
                t.push_back(std::make_pair(std::string(), make(x)));
            }
        } else {
            t.data() = scalarText(j);
        }
        return t;
    }
    static Document *parse(const std::string &text) { return new Document(make(nj::parse(text))); }
    static void poison(Document &d)
    {
        for (auto &m : d) {
            poison(m.second);
        }
        // the node of an array or object must stay: the adapter refers to it
        d.clear();
        d.data() = "poisoned";
    }
};

struct Yaml
{
    typedef valijson::adapters::YamlCppAdapter Adapter;
    typedef YAML::Node Document;

    static Document make(const nj &j)
    {
        if (j.is_object()) {
            Document n(YAML::NodeType::Map);
            for (auto it = j.begin(); it != j.end(); ++it) {
                n[it.key()] = make(it.value());
            }
            return n;
        }
        if (j.is_array()) {
            Document n(YAML::NodeType::Sequence);
            for (const auto &x : j) {
                n.push_back(make(x));
            }
            return n;
        }
        return j.is_null() ? Document(YAML::NodeType::Null) : Document(scalarText(j));
    }
    static Document *parse(const std::string &text) { return new Document(make(nj::parse(text))); }
    static void poison(Document &d)
    {
        // in place: nodes are shared
        if (d.IsMap()) {
            for (auto it = d.begin(); it != d.end(); ++it) {
                Document x = it->second;
                poison(x);
            }
            d["poison"] = true;
        } else if (d.IsSequence()) {
            for (std::size_t i = 0; i < d.size(); ++i) {
                Document x = d[i];
                poison(x);
            }
            d.push_back("poison");
        } else {
            d = "poisoned";
        }
    }
};

// YAML text read by the library itself
struct YamlText : Yaml
{
    static Document *parse(const std::string &text) { return new Document(YAML::Load(text)); }
};

// one string, seen through the adapter used for the names of members
struct OneString : Doc
{
    std::string value;
    valijson::adapters::StdStringAdapter ad;

    explicit OneString(const std::string &s) : value(s), ad(value) { }
    void populate(valijson::SchemaParser &, valijson::Schema &, Remotes *) override { throw std::logic_error("not a schema"); }
    bool validate(valijson::Validator &v, const valijson::Subschema &s, valijson::ValidationResults *r) override { return v.validate(s, ad, r); }
    const valijson::adapters::Adapter &adapter() const override { return ad; }
    nj tree() const override
    {
        nj r;
        r["st"] = ad.hasStrictTypes();
        r["cv"] = casts(ad);
        r["tags"] = (ad.isNull() ? 1 : 0) + (ad.isBool() ? 1 : 0) + (ad.isInteger() ? 1 : 0) + (ad.isDouble() ? 1 : 0) +
                    (ad.isString() ? 1 : 0) + (ad.isArray() ? 1 : 0) + (ad.isObject() ? 1 : 0);
        r["num"] = ad.isNumber();
        std::string s;
        r["t"] = ad.isString() && ad.getString(s) && s == ad.getString() ? "s" : "?";
        r["s"] = ad.getString();
        r["as"] = ad.asString();
        return r;
    }
    nj pointer(const std::string &, bool) const override { throw std::logic_error("not a document"); }
    void poison() override { value.assign(value.size(), '#'); }
    std::string dump() const override { return tree().dump(); }
};

std::unique_ptr<Doc> oneString(const std::string &text)
{
    const nj j = nj::parse(text);
    return std::unique_ptr<Doc>(j.is_string() ? new OneString(j.get<std::string>()) : nullptr);
}

nj noBlank() { return nullptr; }

RegisterLib r0("string", oneString, noBlank);
RegisterLib r1("ptree", parseDoc<Tree>, blankTree<Tree>);
RegisterLib r2("yaml", parseDoc<Yaml>, blankTree<Yaml>);
RegisterLib r3("yamltext", parseDoc<YamlText>, blankTree<YamlText>);
}  // namespace
