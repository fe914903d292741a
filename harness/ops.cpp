// Operations beyond "sv": each runs one recorded or generated behaviour.
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/wait.h>
#include <unistd.h>

#include <valijson/constraints/concrete_constraints.hpp>
#include <valijson/internal/json_reference.hpp>
#include <valijson/internal/uri.hpp>
#include <valijson/utils/utf8_utils.hpp>

#include "drv.hpp"

using namespace valijson;
using namespace valijson::constraints;

static SchemaParser::Version ver(int d)
{
    return d == 3 ? SchemaParser::kDraft3 : d == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7;
}

static nj errs(const ValidationResults &r)
{
    nj a = nj::array();
    for (const auto &e : r) {
        a.push_back({e.jsonPointer, e.context, e.description});
    }
    return a;
}

static std::string bytes(const nj &a)
{
    std::string s;
    for (const auto &b : a) {
        s.push_back(static_cast<char>(b.get<int>()));
    }
    return s;
}

static nj unbytes(const std::string &s)
{
    nj a = nj::array();
    for (unsigned char c : s) {
        a.push_back(static_cast<int>(c));
    }
    return a;
}

// ---------------------------------------------------------------- results
static nj opQueue(const nj &c)
{
    nj out = nj::array();
    std::map<int, ValidationResults> q;
    auto one = [](const ValidationResults::Error &e) {
        nj ctx = nj::array();
        for (const auto &s : e.context) {
            ctx.push_back(unbytes(s));
        }
        return nj::array({unbytes(e.jsonPointer), ctx, unbytes(e.description)});
    };
    for (const auto &op : c["ops"]) {
        const std::string k = op[0];
        const int o = op[1];
        if (k == "push") {
            ValidationResults::Path p;
            for (const auto &seg : op[2]) {
                p.push_back({seg[0].get<int>() ? ValidationResults::kObject : ValidationResults::kArray,
                             bytes(seg[1])});
            }
            q[o].pushError(p, bytes(op[3]));
            out.push_back(q[o].numErrors());
        } else if (k == "pushe") {
            // push a copy of an error that was built by hand
            ValidationResults::Error e;
            e.description = bytes(op[3]);
            e.jsonPointer = "/p";
            e.context = {"c1", "c2"};
            q[o].pushError(e);
            e.description = "changed afterwards";
            e.context.clear();
            out.push_back(q[o].numErrors());
        } else if (k == "pop") {
            ValidationResults::Error e;
            e.description = "untouched";
            const bool ok = q[o].popError(e);
            out.push_back({ok, one(e), q[o].numErrors()});
        } else if (k == "iter") {
            nj a = nj::array();
            for (const auto &e : q[o]) {
                a.push_back(one(e));
            }
            out.push_back({a, q[o].numErrors()});
        } else if (k == "copy") {
            q[op[2].get<int>()] = q[o];
            out.push_back(q[op[2].get<int>()].numErrors());
        }
    }
    return out;
}

// -------------------------------------------------------------- lifecycle
namespace {
struct Heap
{
    std::set<void *> live;
    long allocs = 0, frees = 0, bad = 0, fail = 0;
};
Heap heaps[2];

template<int H>
void *heapAlloc(size_t n)
{
    Heap &h = heaps[H];
    if (h.fail > 0 && --h.fail == 0) {
        return nullptr;
    }
    void *p = malloc(n);
    h.live.insert(p);
    h.allocs++;
    return p;
}

template<int H>
void heapFree(void *p)
{
    Heap &h = heaps[H];
    if (!p) {
        return;
    }
    h.frees++;
    if (!h.live.erase(p)) {
        h.bad++;
        return;
    }
    memset(p, 0xdd, 1);
    free(p);
}
}  // namespace

static nj opLife(const nj &c)
{
    for (Heap &h : heaps) {
        h = Heap();
    }
    nj out = nj::array();
    std::map<int, std::unique_ptr<Schema>> slot;
    std::map<int, const Subschema *> handle;     // numbered in order of creation
    std::map<const Subschema *, int> number;
    int next = 1;
    Subschema *foreign = new Subschema();
    // documents to validate against
    std::vector<std::unique_ptr<Doc>> docs;
    for (const char *t : {"1", "7", "\"x\"", "{\"a\":1}", "{\"a\":\"x\"}"}) {
        docs.push_back(lib("rapidjson").parse(t));
    }
    auto pick = [&](Schema &s, const nj &h) -> const Subschema * {
        const int n = h;
        if (n == 0) {
            return s.root();
        }
        if (n == -1) {
            return s.emptySubschema();
        }
        if (n == -2) {
            return foreign;
        }
        return handle.at(n);
    };
    // subschemas that go away with their schema: their addresses may come again
    auto dead = [&](const nj &hs) {
        for (const auto &h : hs) {
            number.erase(handle.at(h.get<int>()));
        }
    };
    for (const auto &op : c["ops"]) {
        const std::string k = op[0];
        const int s = op[1];
        nj r;
        try {
            if (k == "new") {
                const int h = op[2];
                heaps[0].fail = heaps[1].fail = op[3].get<int>();
                dead(op[4]);
                slot[s].reset(h == 0 ? new Schema()
                                     : h == 1 ? new Schema(heapAlloc<0>, heapFree<0>) : new Schema(heapAlloc<1>, heapFree<1>));
                r = "ok";
            } else if (k == "create") {
                heaps[0].fail = heaps[1].fail = op.size() > 2 ? op[2].get<int>() : 0;
                const Subschema *p = slot.at(s)->createSubschema();
                r = number.count(p) ? nj("again") : nj(next);
                handle[next] = p;
                number[p] = next++;
            } else if (k == "add") {
                heaps[0].fail = heaps[1].fail = op.size() > 5 ? op[5].get<int>() : 0;
                Schema &sc = *slot.at(s);
                const Subschema *t = pick(sc, op[2]);
                const std::string kind = op[3];
                if (kind == "number") {
                    TypeConstraint x;
                    x.addNamedType(TypeConstraint::kNumber);
                    sc.addConstraintToSubschema(x, t);
                } else if (kind == "min5") {
                    MinimumConstraint x;
                    x.setMinimum(5);
                    sc.addConstraintToSubschema(x, t);
                } else if (kind == "not") {
                    NotConstraint x;
                    x.setSubschema(pick(sc, op[4]));
                    sc.addConstraintToSubschema(x, t);
                } else if (kind == "a") {
                    PropertiesConstraint x;
                    x.addPropertySubschema("a", pick(sc, op[4]));
                    x.setAdditionalPropertiesSubschema(sc.emptySubschema());
                    sc.addConstraintToSubschema(x, t);
                } else if (kind == "any") {
                    AnyOfConstraint x;
                    x.addSubschema(pick(sc, op[4]));
                    x.addSubschema(sc.emptySubschema());
                    sc.addConstraintToSubschema(x, t);
                }
                r = "ok";
            } else if (k == "set") {
                Schema &sc = *slot.at(s);
                const Subschema *t = pick(sc, op[2]);
                const std::string which = op[3];
                const std::string v = op[4];
                if (which == "id") {
                    sc.setSubschemaId(t, v);
                } else if (which == "title") {
                    sc.setSubschemaTitle(t, v);
                } else if (which == "description") {
                    sc.setSubschemaDescription(t, v);
                } else {
                    sc.setAlwaysInvalid(t, v == "1");
                }
                r = "ok";
            } else if (k == "get") {
                Schema &sc = *slot.at(s);
                const Subschema *t = pick(sc, op[2]);
                auto attr = [](bool has, std::function<std::string()> f) -> nj {
                    try {
                        const std::string v = f();
                        return has ? nj(v) : nj("has is wrong");
                    } catch (const std::exception &) {
                        return has ? nj("has is wrong") : nj("-");
                    }
                };
                r = {{"id", attr(t->hasId(), [&] { return t->getId(); })},
                     {"title", attr(t->hasTitle(), [&] { return t->getTitle(); })},
                     {"description", attr(t->hasDescription(), [&] { return t->getDescription(); })},
                     {"inv", t->getAlwaysInvalid() ? "1" : "0"}};
                // the constraints can be visited
                int n = 0, m = 0;
                Subschema::ApplyFunction f = [&](const Constraint &) { ++n; return n % 2 == 0; };
                const bool all = t->apply(f);
                Subschema::ApplyFunction g = [&](const Constraint &) { ++m; return false; };
                const bool strict = t->applyStrict(g);
                r["n"] = n;
                r["apply"] = all == (n == 0) && strict == (n == 0) && m == (n == 0 ? 0 : 1);
            } else if (k == "validate") {
                const Subschema *t = pick(*slot.at(s), op[2]);
                std::string v;
                for (auto &d : docs) {
                    Validator val;
                    ValidationResults res;
                    const bool a = d->validate(val, *t, nullptr);
                    const bool b = d->validate(val, *t, &res);
                    v += a == b && a == (res.numErrors() == 0) ? (a ? "t" : "f") : "?";
                }
                r = v;
            } else if (k == "movec") {
                dead(op[3]);
                std::unique_ptr<Schema> fresh(new Schema(std::move(*slot.at(s))));
                slot[op[2].get<int>()] = std::move(fresh);
                r = "ok";
            } else if (k == "movea") {
                dead(op[3]);
                *slot.at(op[2].get<int>()) = std::move(*slot.at(s));
                r = "ok";
            } else if (k == "destroy") {
                dead(op[2]);
                slot.erase(s);
                r = "ok";
            } else {
                r = "?";
            }
        } catch (const std::bad_alloc &) {
            r = "throw";
        } catch (const std::exception &) {
            r = "throw";
        }
        heaps[0].fail = heaps[1].fail = 0;
        out.push_back({r, heaps[0].bad + heaps[1].bad});
    }
    slot.clear();
    delete foreign;
    out.push_back({heaps[0].live.size(), heaps[1].live.size(), heaps[0].bad + heaps[1].bad});
    for (Heap &h : heaps) {
        for (void *p : h.live) {
            free(p);
        }
        h.live.clear();
    }
    return out;
}

// loading into a schema with its own memory functions, failing at the n-th block
static nj opLoadAlloc(const nj &c)
{
    heaps[0] = Heap();
    nj out;
    std::unique_ptr<Doc> d = lib("rapidjson").parse(c["schema"].get<std::string>());
    std::vector<std::unique_ptr<Doc>> docs;
    for (const auto &t : c["docs"]) {
        docs.push_back(lib("rapidjson").parse(t.get<std::string>()));
    }
    nj runs = nj::array();
    const long upto = c["fails"];
    for (long f = 0; f <= upto; ++f) {
        heaps[0] = Heap();
        nj r;
        try {
            heaps[0].fail = f;
            Schema s(heapAlloc<0>, heapFree<0>);
            SchemaParser p(ver(c["draft"]));
            d->populate(p, s, nullptr);
            heaps[0].fail = 0;
            std::string v;
            for (auto &x : docs) {
                Validator val;
                v += x->validate(val, s, nullptr) ? "t" : "f";
            }
            Schema t(std::move(s));
            std::string w;
            for (auto &x : docs) {
                Validator val;
                w += x->validate(val, t, nullptr) ? "t" : "f";
            }
            r = {"ok", v, w};
        } catch (const std::exception &) {
            r = {"throw", "", ""};
        }
        r.push_back(heaps[0].live.size());
        r.push_back(heaps[0].bad);
        r.push_back(heaps[0].allocs);
        runs.push_back(r);
        if (r[0] == "ok" && f > 0) {
            break;      // fewer blocks than that were asked for
        }
    }
    return runs;
}

// ---------------------------------------------------------------- session
static nj session(const nj &c)
{
    nj out = nj::array();
    std::vector<std::unique_ptr<Schema>> schemas;
    for (const auto &t : c["schemas"]) {
        schemas.emplace_back(new Schema());
        SchemaParser p(ver(c["draft"]));
        std::unique_ptr<Doc> d = lib("rapidjson").parse(t.get<std::string>());
        d->populate(p, *schemas.back(), nullptr);
    }
    std::vector<std::unique_ptr<Doc>> docs;
    for (const auto &t : c["docs"]) {
        docs.push_back(lib(c["lib"].get<std::string>()).parse(t.get<std::string>()));
    }
    std::vector<std::unique_ptr<Validator>> vals;
    for (const auto &m : c["modes"]) {
        vals.emplace_back(new Validator(m[0].get<int>() ? Validator::kStrongTypes : Validator::kWeakTypes,
                                        m[1].get<int>() ? Validator::kStrictDateTime : Validator::kPermissiveDateTime));
    }
    ValidationResults kept;
    for (const auto &op : c["ops"]) {
        const std::string k = op[0];
        if (k == "v") {
            Validator &v = *vals.at(op[1]);
            const Schema &s = *schemas.at(op[2]);
            Doc &d = *docs.at(op[3]);
            const int how = op[4];        // 0 no results, 1 fresh results, 2 results kept across calls
            nj r;
            try {
                if (how == 0) {
                    r = {d.validate(v, s, nullptr) ? "t" : "f", nj::array()};
                } else if (how == 1) {
                    ValidationResults res;
                    const bool b = d.validate(v, s, &res);
                    r = {b ? "t" : "f", errs(res)};
                } else {
                    const size_t before = kept.numErrors();
                    const bool b = d.validate(v, s, &kept);
                    nj all = errs(kept), add = nj::array();
                    for (size_t i = before; i < all.size(); ++i) {
                        add.push_back(all[i]);
                    }
                    r = {b ? "t" : "f", add};
                }
            } catch (const std::exception &) {
                r = {"x", nj::array()};
            }
            out.push_back(r);
        } else if (k == "copy") {          // replace a validator by a copy of another
            vals.at(op[2]).reset(new Validator(*vals.at(op[1])));
            out.push_back({"-", nj::array()});
        } else if (k == "fresh") {
            const auto &m = c["modes"][op[1].get<size_t>()];
            vals.at(op[1]).reset(new Validator(m[0].get<int>() ? Validator::kStrongTypes : Validator::kWeakTypes,
                                               m[1].get<int>() ? Validator::kStrictDateTime
                                                               : Validator::kPermissiveDateTime));
            out.push_back({"-", nj::array()});
        }
    }
    return out;
}

// every history runs in a process of its own, so static state starts fresh
static nj forked(const nj &c, nj (*f)(const nj &))
{
    int fd[2];
    if (pipe(fd)) {
        throw std::runtime_error("pipe");
    }
    const pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        alarm(20);
        std::string s;
        try {
            s = f(c).dump(-1, ' ', true, nj::error_handler_t::replace);
        } catch (const std::exception &e) {
            s = "{\"crash\":\"exception\"}";
        }
        size_t n = 0;
        while (n < s.size()) {
            const ssize_t w = write(fd[1], s.data() + n, s.size() - n);
            if (w <= 0) {
                break;
            }
            n += static_cast<size_t>(w);
        }
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) {
        s.append(buf, static_cast<size_t>(n));
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) || s.empty()) {
        return {{"crash", "crash"}};
    }
    return nj::parse(s);
}

// ----------------------------------------------------------------- custom
namespace {
struct Census
{
    std::set<const void *> live;
    long made = 0, copied = 0, gone = 0, bad = 0, builders = 0, calls = 0;
    nj log = nj::array();
};
Census census;

class Bound : public PolyConstraint
{
public:
    Bound(double limit, bool lower) : m_limit(limit), m_lower(lower)
    {
        census.made++;
        census.live.insert(this);
    }
    Bound(const Bound &o) : PolyConstraint(o), m_limit(o.m_limit), m_lower(o.m_lower)
    {
        if (m_limit == -77) {
            throw std::runtime_error("this one cannot be copied");
        }
        census.copied++;
        census.live.insert(this);
    }
    ~Bound() override
    {
        census.gone++;
        if (!census.live.erase(this)) {
            census.bad++;
        }
    }
    bool validate(const adapters::Adapter &target, const ValidationResults::Path &path,
                  ValidationResults *results) const override
    {
        census.calls++;
        if (!census.live.count(this)) {
            census.bad++;
        }
        if (!target.isNumber()) {
            return true;
        }
        const double x = target.getNumber();
        if (m_lower ? x >= m_limit : x <= m_limit) {
            return true;
        }
        if (results) {
            results->pushError(path, "bound");
        }
        return false;
    }

private:
    Constraint *cloneInto(void *p) const override { return new (p) Bound(*this); }
    size_t sizeOf() const override { return sizeof(Bound); }
    double m_limit;
    bool m_lower;
    std::string m_pad = "a string long enough to be on the heap, to show leaks";
};

class BoundBuilder : public ConstraintBuilder
{
public:
    BoundBuilder(std::string key, bool lower) : m_key(std::move(key)), m_lower(lower) { census.builders++; }
    ~BoundBuilder() override { census.builders--; }
    Constraint *make(const adapters::Adapter &a) const override
    {
        census.log.push_back({m_key, a.isNumber() ? a.getNumber() : -1});
        if (!a.isNumber()) {
            throw std::runtime_error("bad bound");
        }
        return new Bound(a.getNumber(), m_lower);
    }

private:
    std::string m_key;
    bool m_lower;
};
}  // namespace

static nj opCustom(const nj &c)
{
    census = Census();
    heaps[0] = Heap();
    nj oc;
    oc["combo"] = {c["lib"], c["lib"]};
    std::unique_ptr<Doc> d = lib(c["lib"].get<std::string>()).parse(c["schema"].get<std::string>());
    Remotes rem;
    rem.enabled = c.value("fetch", false);
    if (c.contains("remotes")) {
        for (auto it = c["remotes"].begin(); it != c["remotes"].end(); ++it) {
            rem.text[it.key()] = it.value().get<std::string>();
        }
    }
    {
        std::unique_ptr<Schema> s(c.value("heap", false) ? new Schema(heapAlloc<0>, heapFree<0>) : new Schema());
        {
            SchemaParser p(ver(c["draft"]));
            for (const auto &k : c["builders"]) {
                p.addConstraintBuilder(k.get<std::string>(), new BoundBuilder(k, k == "x-lower"));
            }
            oc["builders"] = census.builders;
            try {
                d->populate(p, *s, &rem);
                oc["load"] = "ok";
            } catch (const std::exception &) {
                oc["load"] = "err";
            }
        }
        oc["buildersleft"] = census.builders;
        oc["built"] = census.log;
        // only the copies owned by the schema are left
        oc["temps"] = census.made - census.gone;
        oc["live"] = census.live.size();
        oc["log"] = rem.log;
        if (c.value("move", false)) {
            std::unique_ptr<Schema> t(new Schema(std::move(*s)));
            s = std::move(t);
        }
        oc["r"] = nj::array();
        if (oc["load"] == "ok") {
            size_t i = 0;
            for (const auto &t : c["docs"]) {
                std::unique_ptr<Doc> x = lib(c["lib"].get<std::string>()).parse(t.get<std::string>());
                nj r = nj::array({i, 0});
                ValidationResults res;
                Validator v;
                try {
                    r.push_back(x->validate(v, *s, nullptr) ? "t" : "f");
                    r.push_back(x->validate(v, *s, &res) ? "t" : "f");
                } catch (const std::exception &) {
                    r.push_back("x");
                    r.push_back("x");
                }
                r.push_back(res.numErrors());
                r.push_back(errs(res));
                oc["r"].push_back(r);
                ++i;
            }
        }
    }
    oc["end"] = {census.live.size(), census.bad, census.made + census.copied - census.gone,
                 heaps[0].live.size(), heaps[0].bad};
    for (void *p : heaps[0].live) {
        free(p);
    }
    heaps[0].live.clear();
    return nj::array({oc});
}

// -------------------------------------------------------------- lifetimes
// c["ops"] is an interleaving of: load, poison, destroy, parser, move, v
static nj opAlias(const nj &c)
{
    nj out = nj::array();
    std::map<int, std::unique_ptr<Schema>> schema;
    std::unique_ptr<SchemaParser> parser(new SchemaParser(ver(c["draft"])));
    std::map<int, std::unique_ptr<Doc>> src;
    std::vector<std::unique_ptr<Doc>> docs;
    std::vector<std::string> before;
    for (const auto &t : c["docs"]) {
        docs.push_back(lib(c["doclib"].get<std::string>()).parse(t.get<std::string>()));
        before.push_back(docs.back()->dump());
    }
    Remotes rem;
    rem.enabled = c.value("fetch", false);
    if (c.contains("remotes")) {
        for (auto it = c["remotes"].begin(); it != c["remotes"].end(); ++it) {
            rem.text[it.key()] = it.value().get<std::string>();
        }
    }
    for (const auto &op : c["ops"]) {
        const std::string k = op[0];
        nj r = "ok";
        try {
            if (k == "load") {
                const int n = op[1];
                src[n] = lib(op[2].get<std::string>()).parse(c["schemas"][n].get<std::string>());
                const std::string dump = src[n]->dump();
                schema[n].reset(new Schema());
                if (!parser) {
                    parser.reset(new SchemaParser(ver(c["draft"])));
                }
                src[n]->populate(*parser, *schema[n], &rem);
                r = src[n]->dump() == dump ? "ok" : "changed";
            } else if (k == "poison") {
                src.at(op[1])->poison();
            } else if (k == "destroy") {
                src.erase(op[1].get<int>());
            } else if (k == "parser") {
                parser.reset();
            } else if (k == "move") {
                schema[op[1]].reset(new Schema(std::move(*schema.at(op[1]))));
            } else if (k == "movea") {
                std::unique_ptr<Schema> t(new Schema());
                *t = std::move(*schema.at(op[1]));
                schema[op[1]] = std::move(t);
            } else if (k == "v") {
                std::string v;
                for (size_t i = 0; i < docs.size(); ++i) {
                    Validator val, val2;
                    ValidationResults res;
                    const bool a = docs[i]->validate(val, *schema.at(op[1]), nullptr);
                    const bool b = docs[i]->validate(val2, *schema.at(op[1]), &res);
                    v += docs[i]->dump() != before[i] ? "c" : a != b ? "?" : a ? "t" : "f";
                }
                r = v;
            }
        } catch (const std::exception &e) {
            r = "throw";
        }
        out.push_back(r);
    }
    return out;
}

// one parser for a sequence of schemas
static nj opReuse(const nj &c)
{
    nj out = nj::array();
    SchemaParser parser(ver(c["draft"]));
    std::vector<std::unique_ptr<Doc>> docs;
    for (const auto &t : c["docs"]) {
        docs.push_back(lib("rapidjson").parse(t.get<std::string>()));
    }
    for (const auto &t : c["schemas"]) {
        std::unique_ptr<Doc> d = lib("rapidjson").parse(t.get<std::string>());
        Schema s;
        std::string v;
        std::string load = "ok";
        Remotes rem;
        rem.enabled = c.value("fetch", false);
        if (c.contains("remotes")) {
            for (auto it = c["remotes"].begin(); it != c["remotes"].end(); ++it) {
                rem.text[it.key()] = it.value().get<std::string>();
            }
        }
        try {
            d->populate(parser, s, &rem);
        } catch (const std::exception &) {
            load = "err";
        }
        if (load == "ok") {
            for (auto &x : docs) {
                Validator val;
                v += x->validate(val, s, nullptr) ? "t" : "f";
            }
        }
        out.push_back({load, v});
    }
    return out;
}

// ------------------------------------------------------------------ trees
static nj opTree(const nj &c)
{
    nj out = nj::array();
    for (const auto &l : c["libs"]) {
        nj row = nj::array();
        for (const auto &t : c["docs"]) {
            try {
                if (t.is_null()) {
                    row.push_back(lib(l).blank());
                    continue;
                }
                std::unique_ptr<Doc> d = lib(l).parse(t.get<std::string>());
                row.push_back(d ? d->tree() : nj("unparsed"));
            } catch (const std::exception &e) {
                row.push_back("throw");
            }
        }
        out.push_back(row);
    }
    return out;
}

// equality of every value with every value, as strings of t/f per pair of libraries
static nj opEq(const nj &c)
{
    nj out = nj::array();
    for (const auto &p : c["pairs"]) {
        std::vector<std::unique_ptr<Doc>> a, b;
        for (const auto &t : c["docs"]) {
            a.push_back(lib(p[0].get<std::string>()).parse(t.get<std::string>()));
            b.push_back(lib(p[1].get<std::string>()).parse(t.get<std::string>()));
        }
        std::string eq, fr, cl;
        for (auto &x : a) {
            const adapters::Adapter *ax = x ? &x->adapter() : nullptr;
            std::unique_ptr<adapters::FrozenValue> f(ax ? ax->freeze() : nullptr);
            std::unique_ptr<adapters::FrozenValue> g(f ? f->clone() : nullptr);
            const bool strict = c["strict"];
            if (x) {
                x->poison();
            }
            for (auto &y : b) {
                if (!f || !y) {
                    fr += "u";
                    cl += "u";
                    continue;
                }
                try {
                    fr += f->equalTo(y->adapter(), strict) ? "t" : "f";
                    cl += g->equalTo(y->adapter(), strict) ? "t" : "f";
                } catch (const std::exception &) {
                    fr += "x";
                    cl += "x";
                }
            }
        }
        a.clear();
        for (const auto &t : c["docs"]) {
            a.push_back(lib(p[0].get<std::string>()).parse(t.get<std::string>()));
        }
        for (auto &x : a) {
            for (auto &y : b) {
                if (!x || !y) {
                    eq += "u";
                    continue;
                }
                try {
                    eq += x->adapter().equalTo(y->adapter(), c["strict"].get<bool>()) ? "t" : "f";
                } catch (const std::exception &) {
                    eq += "x";
                }
            }
        }
        out.push_back({eq, fr, cl});
    }
    return out;
}

static nj opPtr(const nj &c)
{
    nj out = nj::array();
    for (const auto &l : c["libs"]) {
        std::unique_ptr<Doc> d = lib(l).parse(c["doc"].get<std::string>());
        nj row = nj::array();
        for (const auto &p : c["ptrs"]) {
            try {
                row.push_back({"ok", d->pointer(bytes(p[0]), p[1].get<int>() != 0)});
            } catch (const std::exception &) {
                row.push_back({"x", nullptr});
            }
        }
        out.push_back(row);
    }
    return out;
}

static nj opUri(const nj &c)
{
    nj out = nj::array();
    for (const auto &p : c["pairs"]) {
        const std::string b = bytes(p[0]), r = bytes(p[1]);
        nj row;
        try {
            const std::string res = internal::uri::resolveRelativeUri(b, r);
            row["r"] = unbytes(res);
            row["again"] = unbytes(internal::uri::resolveRelativeUri(b, res));
        } catch (const std::exception &) {
            row["r"] = "x";
            row["again"] = "x";
        }
        row["abs"] = internal::uri::isUriAbsolute(r);
        row["urn"] = internal::uri::isUrn(r);
        const auto u = internal::json_reference::getJsonReferenceUri(r);
        const auto f = internal::json_reference::getJsonReferencePointer(r);
        row["hu"] = static_cast<bool>(u);
        row["u"] = unbytes(u ? *u : "");
        row["hf"] = static_cast<bool>(f);
        row["f"] = unbytes(f ? *f : "");
        out.push_back(row);
    }
    return out;
}

static nj opUtf8(const nj &c)
{
    nj out = nj::array();
    for (const auto &s : c["strs"]) {
        const std::string v = bytes(s);
        // a buffer of exactly that size, so that a byte beyond it is an error
        char *p = static_cast<char *>(malloc(v.size() ? v.size() : 1));
        memcpy(p, v.data(), v.size());
        out.push_back(static_cast<long>(utils::u8_strlen(p, v.size())));
        free(p);
    }
    return out;
}

nj runExtra(const nj &c)
{
    const std::string op = c["op"];
    if (op == "queue") return opQueue(c);
    if (op == "life") return opLife(c);
    if (op == "loadalloc") return opLoadAlloc(c);
    if (op == "session") return c.value("fork", true) ? forked(c, session) : session(c);
    if (op == "custom") return opCustom(c);
    if (op == "alias") return opAlias(c);
    if (op == "reuse") return opReuse(c);
    if (op == "tree") return opTree(c);
    if (op == "eq") return opEq(c);
    if (op == "ptr") return opPtr(c);
    if (op == "uri") return opUri(c);
    if (op == "utf8") return opUtf8(c);
    throw std::logic_error("unknown op " + op);
}
