// Common frame of the checks: splits each leg over worker processes, enumerates its cases in a fixed
// order, records failures with the case that produced them, and can run one recorded case again.
#pragma once
#include "choice.h"
#include "tree.h"

#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

inline std::string json(std::string_view s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += char(ch);
    }
    return o + "\"";
}

struct Failure {
    std::string leg, id, key, what;
};

struct Shared { // one per worker
    std::atomic<std::uint64_t> progress;
    char leg[64];
    char id[4096];
};

class Worker {
public:
    int part = 0, parts = 1;
    bool thorough = false;

    std::map<std::string, std::uint64_t> counters;
    std::unordered_set<std::uint64_t> states;
    std::vector<std::string> samples;
    std::vector<Failure> failures;
    std::map<std::string, int> per_key;
    bool capped = false;

    // ---- reporting
    void count(std::string const& name, std::uint64_t n = 1) { if (!muted_) counters[name] += n; }
    void state(std::uint64_t h) { if (!muted_) states.insert(h); }
    bool steering() const { return muted_; } // this run only steers the split: nothing is recorded
    void sample(std::string s) {
        if (muted_) return;
        std::uint64_t n = ++sampled_;
        // keep the 1st, 10th, 100th ... so that samples show simple and complex cases
        if ((n & (n - 1)) == 0 && samples.size() < 24) samples.emplace_back(std::move(s));
    }
    // key identifies the kind of failure, what explains this one
    void fail(std::string const& key, std::string what) {
        if (muted_) return;
        count("failures");
        if (replay_) { std::cout << "FAIL [" << key << "] " << what << "\n"; }
        if (per_key[key]++ < 3) failures.push_back({leg_, id_, key, std::move(what)});
    }
    template<class... Ts>
    bool expect(bool ok, std::string const& key, Ts const&... what) {
        if (ok) return true;
        std::ostringstream s;
        (s << ... << what);
        fail(key, s.str());
        return false;
    }

    // ---- enumeration
    // every choice sequence with at most `bound` deviations from the default choice
    void explore(std::string const& leg, int bound, std::function<void(Chooser&)> body) {
        if (!enter(leg)) return;
        if (replay_) {
            if (only_id_.empty()) return;
            Chooser c;
            c.start(parse_ids(only_id_));
            id_ = only_id_;
            guarded([&] { body(c); });
            return;
        }
        Explorer ex(bound, part, parts);
        ex.body = [&](Chooser& c) {
            if (ex.shadow) { // steer the split only
                muted_ = true;
                guarded([&] { body(c); });
                muted_ = false;
                return true;
            }
            c.on_choice = [&](std::vector<int> const& v) { note(v); };
            note(c.prefix());
            guarded([&] { body(c); });
            return failures.size() < 400;
        };
        ex.run();
        c_["executions"] += ex.stats.executions;
        c_["choices"] += ex.stats.choices;
        c_["nodes"] += ex.stats.nodes;
        counters["leg:" + leg + ":executions"] += ex.stats.executions;
        capped = capped || ex.stats.capped;
    }
    // every index in [0, total)
    void enumerate(std::string const& leg, std::uint64_t total, std::function<void(std::uint64_t)> body) {
        if (!enter(leg)) return;
        if (replay_) {
            if (only_id_.empty()) return;
            std::uint64_t i = std::strtoull(only_id_.c_str(), nullptr, 10);
            id_ = only_id_;
            guarded([&] { body(i); });
            return;
        }
        std::uint64_t n = 0;
        for (std::uint64_t i = std::uint64_t(part); i < total; i += std::uint64_t(parts)) {
            id_ = std::to_string(i);
            publish();
            guarded([&] { body(i); });
            ++n;
            if (failures.size() >= 400) break;
        }
        c_["executions"] += n;
        c_["choices"] += n;
        c_["nodes"] += n;
        counters["leg:" + leg + ":executions"] += n;
    }
    bool replaying() const { return replay_; }

    // ---- set up by the frame
    Shared* shared = nullptr;
    bool replay_ = false;
    bool muted_ = false;
    std::string only_leg_, only_id_;
    std::map<std::string, std::uint64_t> c_;
    std::string const& leg() const { return leg_; }
    std::string const& id() const { return id_; }

private:
    std::string leg_, id_;
    std::uint64_t sampled_ = 0;

    bool enter(std::string const& leg) {
        leg_ = leg;
        id_.clear();
        if (shared) { std::snprintf(shared->leg, sizeof shared->leg, "%s", leg.c_str()); publish(); }
        return !replay_ || leg == only_leg_;
    }
    static std::vector<int> parse_ids(std::string const& s) {
        std::vector<int> v;
        std::stringstream in(s);
        std::string x;
        while (std::getline(in, x, ',')) if (!x.empty() && x != "-") v.push_back(std::atoi(x.c_str()));
        return v;
    }
    void note(std::vector<int> const& v) {
        // trailing default choices are implied
        std::size_t n = v.size();
        while (n && v[n - 1] == 0) --n;
        id_.clear();
        for (std::size_t i = 0; i < n; ++i) { if (i) id_ += ','; id_ += std::to_string(v[i]); }
        if (id_.empty()) id_ = "-";
        publish();
    }
    void publish() {
        if (!shared) return;
        std::snprintf(shared->id, sizeof shared->id, "%s", id_.c_str());
        shared->progress.fetch_add(1, std::memory_order_relaxed);
    }
    template<class F> void guarded(F&& f) {
        try { f(); }
        catch (std::logic_error const& e) {
            if (std::string_view(e.what()).substr(0, 9) == "diverging") throw;
            fail("exception", e.what());
        }
        catch (std::exception const& e) { fail("exception", e.what()); }
    }
};

using CheckFn = void (*)(Worker&);

inline std::string describe_case_hint; // optional text appended to replay output

inline int harness_main(int argc, char** argv, CheckFn check) {
    int parts = 8;
    bool thorough = false;
    std::string out = "result.json", leg, id;
    bool replay = false;
    int stall = 100;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--workers") parts = std::atoi(next().c_str());
        else if (a == "--tier") thorough = next() == "thorough";
        else if (a == "--out") out = next();
        else if (a == "--stall") stall = std::atoi(next().c_str());
        else if (a == "--replay") { replay = true; leg = next(); id = next(); }
    }
    if (replay) {
        Worker w;
        w.replay_ = true;
        w.thorough = thorough;
        w.only_leg_ = leg;
        w.only_id_ = id;
        check(w);
        std::cout << (w.failures.empty() ? "REPLAY-OK\n" : "REPLAY-FAILED\n");
        return w.failures.empty() ? 0 : 1;
    }
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * std::size_t(parts), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED) { std::perror("mmap"); return 3; }
    std::vector<pid_t> pids;
    for (int p = 0; p < parts; ++p) {
        new (&sh[p]) Shared();
        pid_t pid = fork();
        if (pid < 0) { std::perror("fork"); return 3; }
        if (pid == 0) {
            Worker w;
            w.part = p;
            w.parts = parts;
            w.thorough = thorough;
            w.shared = &sh[p];
            check(w);
            std::string base = out + "." + std::to_string(p);
            {
                std::ofstream f(base);
                for (auto& kv : w.counters) f << "C\t" << kv.first << "\t" << kv.second << "\n";
                for (auto& kv : w.c_) f << "X\t" << kv.first << "\t" << kv.second << "\n";
                if (w.capped) f << "P\n";
                for (auto& s : w.samples) f << "S\t" << json(s) << "\n";
                for (auto& x : w.failures)
                    f << "F\t{\"leg\":" << json(x.leg) << ",\"case\":" << json(x.id) << ",\"key\":" << json(x.key) << ",\"what\":" << json(x.what) << "}\n";
            }
            {
                std::ofstream f(base + ".h", std::ios::binary);
                for (auto h : w.states) f.write(reinterpret_cast<char const*>(&h), 8);
            }
            std::cout.flush();
            std::_Exit(0);
        }
        pids.push_back(pid);
    }
    std::vector<bool> done(std::size_t(parts), false);
    std::vector<std::uint64_t> last(std::size_t(parts), 0);
    std::vector<std::chrono::steady_clock::time_point> when(std::size_t(parts), std::chrono::steady_clock::now());
    std::vector<std::string> crashes;
    int left = parts;
    while (left) {
        bool any = false;
        for (int p = 0; p < parts; ++p) {
            if (done[std::size_t(p)]) continue;
            int st = 0;
            pid_t r = waitpid(pids[std::size_t(p)], &st, WNOHANG);
            if (r == 0) {
                auto now = std::chrono::steady_clock::now();
                auto n = sh[p].progress.load();
                if (n != last[std::size_t(p)]) { last[std::size_t(p)] = n; when[std::size_t(p)] = now; }
                else if (now - when[std::size_t(p)] > std::chrono::seconds(stall)) {
                    kill(pids[std::size_t(p)], SIGKILL);
                    waitpid(pids[std::size_t(p)], &st, 0);
                    crashes.push_back("{\"leg\":" + json(sh[p].leg) + ",\"case\":" + json(sh[p].id) + ",\"key\":\"no-termination\",\"what\":\"no answer within " + std::to_string(stall) + " s\"}");
                    done[std::size_t(p)] = true; --left; any = true;
                }
                continue;
            }
            any = true;
            done[std::size_t(p)] = true;
            --left;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            std::string how = WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
            crashes.push_back("{\"leg\":" + json(sh[p].leg) + ",\"case\":" + json(sh[p].id) + ",\"key\":\"crash\",\"what\":" + json(how) + "}");
        }
        if (!any) usleep(20000);
    }
    std::map<std::string, std::uint64_t> counters, x;
    std::vector<std::string> samples, fails;
    std::unordered_set<std::uint64_t> states;
    bool capped = false;
    for (int p = 0; p < parts; ++p) {
        std::string base = out + "." + std::to_string(p);
        std::ifstream f(base);
        std::string line;
        while (std::getline(f, line)) {
            if (line.empty()) continue;
            if (line[0] == 'P') { capped = true; continue; }
            auto rest = line.substr(2);
            if (line[0] == 'S') { samples.push_back(rest); continue; }
            if (line[0] == 'F') { fails.push_back(rest); continue; }
            auto t = rest.find('\t');
            auto& m = line[0] == 'C' ? counters : x;
            m[rest.substr(0, t)] += std::strtoull(rest.c_str() + t + 1, nullptr, 10);
        }
        std::ifstream h(base + ".h", std::ios::binary);
        std::uint64_t v = 0;
        while (h.read(reinterpret_cast<char*>(&v), 8)) states.insert(v);
        std::remove(base.c_str());
        std::remove((base + ".h").c_str());
    }
    std::ofstream f(out);
    f << "{\"counters\":{";
    bool first = true;
    for (auto& kv : counters) { f << (first ? "" : ",") << json(kv.first) << ":" << kv.second; first = false; }
    f << "},\"exploration\":{";
    first = true;
    for (auto& kv : x) { f << (first ? "" : ",") << json(kv.first) << ":" << kv.second; first = false; }
    f << "},\"distinct\":" << states.size() << ",\"capped\":" << (capped ? "true" : "false") << ",\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i) f << (i ? "," : "") << samples[i];
    f << "],\"failures\":[";
    first = true;
    for (auto* v : {&crashes, &fails}) for (auto& s : *v) { f << (first ? "" : ",") << s; first = false; }
    f << "]}\n";
    return 0;
}

} // namespace mc
