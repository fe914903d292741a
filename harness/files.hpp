// Reading documents from files with the helpers in utils/.
#pragma once
#include "drv_doc.hpp"

typedef nj (*ReadFiles)(const std::vector<std::string> &paths);
std::map<std::string, ReadFiles> &readers();

#ifndef FILES_MAIN
// one document object, several files read into it
template<typename Adapter, typename Document>
nj readFiles(const std::vector<std::string> &paths)
{
    nj out = nj::array();
    std::unique_ptr<Document> d(new Document);
    for (const auto &p : paths) {
        nj r = nj::array();
        try {
            const bool ok = valijson::utils::loadDocument(p, *d);
            r.push_back(ok ? "t" : "f");
            if (ok) {
                try {
                    r.push_back(walk(Adapter(*d)));
                } catch (const std::exception &e) {
                    r[0] = "unreadable";
                    r.push_back(e.what());
                }
            }
        } catch (const std::exception &e) {
            r.push_back("x");
            r.push_back(e.what());
            d.reset(new Document);
        } catch (...) {
            r.push_back("x");
            d.reset(new Document);
        }
        out.push_back(r);
    }
    return out;
}

#endif

struct RegisterReader
{
    RegisterReader(const char *name, ReadFiles f) { readers()[name] = f; }
};
