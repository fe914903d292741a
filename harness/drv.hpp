// Conformance driver for valijson: common interface over the JSON libraries.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include <nlohmann/json.hpp>

#include <valijson/adapters/std_string_adapter.hpp>
#include <valijson/internal/adapter.hpp>
#include <valijson/internal/frozen_value.hpp>
#include <valijson/internal/json_pointer.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>

using nj = nlohmann::json;

#ifdef DRV_ENGINE
#include "engine.hpp"
typedef valijson::ValidatorT<DrvEngine> DrvValidator;
#else
typedef valijson::Validator DrvValidator;
#endif

// Remote documents offered to one populateSchema call, and what happened
struct Remotes
{
    std::map<std::string, std::string> text;   // resolved URI -> JSON text
    bool enabled = false;                      // pass the callback pair
    bool only_fetch = false;                   // pass only the fetch callback
    bool only_free = false;
    std::set<std::string> throwing;            // fetch throws for these
    int live = 0;                              // fetched and not yet freed
    nj log = nj::array();                      // ["fetch",uri,ok] / ["free",uri,n]
};

struct Doc
{
    virtual ~Doc() = default;
    virtual void populate(valijson::SchemaParser &p, valijson::Schema &s, Remotes *r) = 0;
    virtual bool validate(DrvValidator &v, const valijson::Subschema &s,
                          valijson::ValidationResults *r) = 0;
    virtual const valijson::adapters::Adapter &adapter() const = 0;
    // walk the tree through iterators and lookups
    virtual nj tree() const = 0;
    virtual nj pointer(const std::string &ptr, bool strict) const = 0;
    // overwrite the underlying document in place
    virtual void poison() = 0;
    virtual std::string dump() const = 0;
};

struct Lib
{
    const char *name;
    std::unique_ptr<Doc> (*parse)(const std::string &text);
    nj (*blank)();      // the tree of a default constructed adapter
};

std::map<std::string, Lib> &libs();

inline Lib &lib(const std::string &name)
{
    auto it = libs().find(name);
    if (it == libs().end()) {
        throw std::logic_error("no such library: " + name);
    }
    return it->second;
}

struct RegisterLib
{
    RegisterLib(const char *name, std::unique_ptr<Doc> (*parse)(const std::string &), nj (*blank)())
    {
        libs()[name] = Lib{name, parse, blank};
    }
};
