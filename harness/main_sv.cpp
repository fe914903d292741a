// usage: drv CASES.ndjson OUT.ndjson FIRST
// One case per line; one line of observations per case.
#include <csignal>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <unistd.h>

#include "drv.hpp"

using namespace valijson;

std::map<std::string, Lib> &libs()
{
    static std::map<std::string, Lib> m;
    return m;
}

nj runCase(const nj &c);

static nj errorsToJson(const ValidationResults &r)
{
    nj a = nj::array();
    for (const auto &e : r) {
        a.push_back({e.jsonPointer, e.context, e.description});
    }
    return a;
}

static SchemaParser::Version version(int d)
{
    return d == 3 ? SchemaParser::kDraft3 : d == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7;
}

static DrvValidator makeValidator(const nj &mode)
{
    return DrvValidator(mode[0].get<int>() ? DrvValidator::kStrongTypes : DrvValidator::kWeakTypes,
                        mode[1].get<int>() ? DrvValidator::kStrictDateTime : DrvValidator::kPermissiveDateTime);
}

// "t" "f"; "x" an exception; with an engine of our own also "e" its exception,
// "s" its exception did not come out
static std::string runOne(Doc &d, DrvValidator &v, const Schema &schema, ValidationResults *results)
{
#ifdef DRV_ENGINE
    const long before = DrvEngine::thrown();
    try {
        const bool ok = d.validate(v, schema, results);
        return DrvEngine::thrown() != before ? "s" : ok ? "t" : "f";
    } catch (const EngineError &) {
        return "e";
    } catch (const std::exception &) {
        return "x";
    }
#else
    try {
        return d.validate(v, schema, results) ? "t" : "f";
    } catch (const std::exception &) {
        return "x";
    }
#endif
}

// schema x documents x modes x library combinations
static nj opValidate(const nj &c)
{
    nj out = nj::array();
    const auto &docs = c["docs"];
    for (const auto &combo : c["combos"]) {
        const Lib &sl = lib(combo[0]);
        nj oc;
        oc["combo"] = combo;
        std::unique_ptr<Doc> sdoc = sl.parse(c["schema"].get<std::string>());
        if (!sdoc) {
            oc["load"] = "unparsed";
            out.push_back(oc);
            continue;
        }
        Schema schema;
        Remotes rem;
        rem.enabled = c.value("fetch", false);
        rem.only_fetch = c.value("onlyfetch", false);
        rem.only_free = c.value("onlyfree", false);
        if (c.contains("throwing")) {
            for (const auto &u : c["throwing"]) {
                rem.throwing.insert(u.get<std::string>());
            }
        }
        if (c.contains("remotes")) {
            for (auto it = c["remotes"].begin(); it != c["remotes"].end(); ++it) {
                rem.text[it.key()] = it.value().get<std::string>();
            }
        }
        try {
            SchemaParser parser(version(c["draft"]));
            sdoc->populate(parser, schema, &rem);
            oc["load"] = "ok";
        } catch (const std::exception &e) {
            oc["load"] = "err";
            oc["what"] = e.what();
        }
        if (rem.enabled || rem.only_fetch || rem.only_free) {
            oc["log"] = rem.log;
        }
        if (c.value("destroy", false)) {
            sdoc->poison();
            sdoc.reset();
        }
        if (oc["load"] == "ok") {
            std::map<std::string, std::vector<std::unique_ptr<Doc>>> parsed;
            nj rs = nj::array();
            const Lib &dl = lib(combo[1]);
            // one validator per mode for all documents
            const bool shared = c.value("shared", false);
            std::vector<std::unique_ptr<DrvValidator>> kept;
            for (const auto &mode : c["modes"]) {
                kept.emplace_back(new DrvValidator(makeValidator(mode)));
            }
            for (size_t i = 0; i < docs.size(); ++i) {
                std::unique_ptr<Doc> d = dl.parse(docs[i].get<std::string>());
                for (size_t m = 0; m < c["modes"].size(); ++m) {
                    nj r = nj::array({i, m});
                    if (!d) {
                        r.push_back("unparsed");
                        rs.push_back(r);
                        continue;
                    }
                    ValidationResults results;
                    if (shared) {
                        r.push_back(runOne(*d, *kept[m], schema, nullptr));
                        r.push_back(runOne(*d, *kept[m], schema, &results));
                    } else {
                        DrvValidator v1 = makeValidator(c["modes"][m]);
                        r.push_back(runOne(*d, v1, schema, nullptr));
                        DrvValidator v2 = makeValidator(c["modes"][m]);
                        r.push_back(runOne(*d, v2, schema, &results));
                    }
                    r.push_back(results.numErrors());
                    r.push_back(errorsToJson(results));
                    rs.push_back(r);
                }
            }
            oc["r"] = rs;
        }
        out.push_back(oc);
    }
    return out;
}

nj runExtra(const nj &c);

nj runCase(const nj &c)
{
    const std::string op = c["op"];
    if (op == "sv") {
        return opValidate(c);
    }
    return runExtra(c);
}

#ifndef DRV_EXTRA
nj runExtra(const nj &c) { throw std::logic_error("unknown op " + c["op"].get<std::string>()); }
#endif

int main(int argc, char **argv)
{
    if (argc < 4) {
        return 64;
    }
    std::ifstream in(argv[1]);
    FILE *out = fopen(argv[2], "a");
    const long first = atol(argv[3]);
    const int limit = argc > 4 ? atoi(argv[4]) : 20;
    if (!in || !out) {
        return 65;
    }
    // libraries print diagnostics to cout
    std::string line;
    long n = 0;
    while (std::getline(in, line)) {
        if (n++ < first) {
            continue;
        }
        alarm(static_cast<unsigned>(limit));
        nj r;
        r["o"] = runCase(nj::parse(line));
        const std::string s = r.dump(-1, ' ', true, nj::error_handler_t::replace);
        fwrite(s.data(), 1, s.size(), out);
        fputc('\n', out);
        fflush(out);
    }
    fclose(out);
    return 0;
}
