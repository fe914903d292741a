// Histories of VShare: calls of several threads, overlapping as the history says.
#include <atomic>
#include <cstdio>
#include <fcntl.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

#include "drv.hpp"

using namespace valijson;

static std::atomic<int> reports{0};
extern "C" void __tsan_on_report(void *) { reports.fetch_add(1, std::memory_order_relaxed); }

static SchemaParser::Version ver(int d)
{
    return d == 3 ? SchemaParser::kDraft3 : d == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7;
}

namespace {
struct Call
{
    std::vector<int> after;        // the calls that ended before this one began
    std::string op;
    int a = 0, b = 0, d = 0, how = 0;
    std::string outcome;           // written by the thread of the call only
    std::vector<ValidationResults::Error> errors;
    std::atomic<bool> done{false};
};
}  // namespace

static nj share(const nj &c)
{
    const size_t nt = c["threads"];
    std::vector<std::vector<std::unique_ptr<Call>>> todo(nt);
    std::vector<Call *> order;
    {
        std::vector<int> ended;
        std::vector<int> now(nt, -1);
        for (const auto &e : c["hist"]) {
            const size_t t = e[1];
            if (e[0] == "b") {
                std::unique_ptr<Call> k(new Call);
                const auto &o = e[2];
                k->op = o[0];
                k->a = o.size() > 1 ? o[1].get<int>() : 0;
                k->b = o.size() > 2 ? o[2].get<int>() : 0;
                k->d = o.size() > 3 ? o[3].get<int>() : 0;
                k->how = o.size() > 4 ? o[4].get<int>() : 0;
                k->after = ended;
                now[t] = static_cast<int>(order.size());
                order.push_back(k.get());
                todo[t].push_back(std::move(k));
            } else {
                ended.push_back(now[t]);
            }
        }
    }
    std::vector<std::unique_ptr<Schema>> schemas(c["places"].get<size_t>() + 1);
    std::vector<std::unique_ptr<Validator>> vals;
    for (size_t i = 0; i < c["validators"].get<size_t>(); ++i) {
        const auto &m = c["modes"][i % 4];
        vals.emplace_back(new Validator(m[0].get<int>() ? Validator::kStrongTypes : Validator::kWeakTypes,
                                        m[1].get<int>() ? Validator::kStrictDateTime : Validator::kPermissiveDateTime));
    }
    std::vector<std::string> texts;
    for (const auto &t : c["texts"]) {
        texts.push_back(t);
    }
    std::map<std::string, std::string> remotes;
    if (c.contains("remotes")) {
        for (auto it = c["remotes"].begin(); it != c["remotes"].end(); ++it) {
            remotes[it.key()] = it.value();
        }
    }
    const Lib &sl = lib(c["schemalib"].get<std::string>());
    const Lib &dl = lib(c["doclib"].get<std::string>());
    const bool own = c["own"];
    std::vector<std::vector<std::unique_ptr<Doc>>> docs(own ? nt : 1);
    for (auto &v : docs) {
        for (const auto &t : c["docs"]) {
            v.push_back(dl.parse(t.get<std::string>()));
        }
    }
    const SchemaParser::Version draft = ver(c["draft"]);
    const auto body = [&](size_t t) {
        for (auto &k : todo[t]) {
            for (int j : k->after) {
                while (!order[j]->done.load(std::memory_order_acquire)) {
                    std::this_thread::yield();
                }
            }
            try {
                if (k->op == "load") {
                    std::unique_ptr<Doc> d = sl.parse(texts.at(k->b));
                    std::unique_ptr<Schema> s(new Schema);
                    Remotes rem;
                    rem.enabled = !remotes.empty();
                    rem.text = remotes;
                    SchemaParser parser(draft);
                    d->populate(parser, *s, rem.enabled ? &rem : nullptr);
                    schemas[k->a] = std::move(s);
                    k->outcome = "ok";
                } else if (k->op == "drop") {
                    schemas[k->a].reset();
                    k->outcome = "-";
                } else if (k->op == "copy") {
                    Validator v(*vals[k->a - 1]);
                    k->outcome = "-";
                } else {
                    Doc &d = *docs[own ? t : 0][k->d - 1];
                    if (k->how) {
                        ValidationResults r;
                        k->outcome = d.validate(*vals[k->a - 1], *schemas[k->b], &r) ? "t" : "f";
                        for (const auto &e : r) {
                            k->errors.push_back(e);
                        }
                    } else {
                        k->outcome = d.validate(*vals[k->a - 1], *schemas[k->b], nullptr) ? "t" : "f";
                    }
                }
            } catch (const std::exception &) {
                k->outcome = k->op == "load" ? "err" : "x";
            }
            k->done.store(true, std::memory_order_release);
        }
    };
    std::vector<std::thread> threads;
    for (size_t t = 0; t < nt; ++t) {
        threads.emplace_back(body, t);
    }
    for (auto &t : threads) {
        t.join();
    }
    nj out = nj::array();
    for (const Call *k : order) {
        nj errs = nj::array();
        for (const auto &e : k->errors) {
            errs.push_back({e.jsonPointer, e.context});
        }
        out.push_back({k->outcome, errs});
    }
    nj r;
    r["calls"] = out;
    r["races"] = reports.load();
    return r;
}

// every history runs in a process of its own, so static state starts fresh
nj runExtra(const nj &c)
{
    int fd[2];
    if (c["op"] != "share" || pipe(fd)) {
        throw std::runtime_error("share");
    }
    const std::string log = c["log"];
    const pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        alarm(30);
        const int e = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(e, 2);
        std::string s;
        try {
            s = share(c).dump(-1, ' ', true, nj::error_handler_t::replace);
        } catch (const std::exception &) {
            s = "{\"crash\":\"exception\"}";
        }
        size_t n = 0;
        while (n < s.size()) {
            const ssize_t w = write(fd[1], s.data() + n, s.size() - n);
            if (w <= 0) {
                break;
            }
            n += static_cast<size_t>(w);
        }
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) {
        s.append(buf, static_cast<size_t>(n));
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    nj r = !WIFEXITED(st) || WEXITSTATUS(st) || s.empty() ? nj{{"crash", "crash"}} : nj::parse(s);
    if (r.contains("crash") || r["races"] != 0) {
        std::string text;
        if (FILE *f = fopen(log.c_str(), "r")) {
            size_t m;
            while (text.size() < 6000 && (m = fread(buf, 1, 4096, f)) > 0) {
                text.append(buf, m);
            }
            fclose(f);
        }
        r["log"] = text;
    }
    unlink(log.c_str());
    return r;
}
