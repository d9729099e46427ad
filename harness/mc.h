// Common machinery of the bounded exhaustive explorers in this directory.
//
//  * explore()      : stateless exploration of all operation sequences up to a depth, against a
//                     reference model, re-executing the real code for every sequence
//  * fork_tree()    : the same, for systems with process-wide state (one forked process per step)
//  * for_case()     : exhaustive enumeration of an input space
//
// Every execution has a textual case label; `--case LABEL` re-executes exactly that one.
#pragma once

#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

    struct Violation {
        std::string key, msg;
    };

    // ---------------------------------------------------------------- process-wide record
    constexpr uint64_t TABLE = 1u << 22;
    struct Shared {
        uint64_t transitions, traces, evaluations, nontrivial, checks, progress;
        uint64_t nstates, table_full, nsamples;
        char samples[8][1024];
        uint64_t known_seen[16];
        uint64_t table[TABLE];
    };

    inline Shared * S = nullptr;
    inline std::string prop, out, tier = "quick", only;
    inline bool has_only = false;
    inline int shard = 0, nshards = 1;
    inline long seed = 1;
    inline std::set<std::string> known_keys;
    inline std::map<std::string, std::string> notes;
    inline char current[1 << 14] = "(startup)";
    inline const std::vector<int> * current_choices = nullptr;
    inline int current_len = 0;
    inline uint64_t case_counter = 0;
    inline bool only_hit = false;

    inline bool thorough() { return tier == "thorough"; }
    inline int pick(int quick, int deep) { return thorough() ? deep : quick; }

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h ^= h >> 33;
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 29;
        return h;
    }
    inline uint64_t hash_str(const std::string & s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        return mix(h, s.size());
    }

    // record a distinct (canonical) state
    inline bool state(uint64_t h)
    {
        h = h ? h : 1;
        uint64_t i = mix(h, 7) % TABLE;
        for (int k = 0; k < 4096; ++k, i = (i + 1) % TABLE) {
            if (S->table[i] == h) return false;
            if (S->table[i] == 0) {
                uint64_t z = 0;
                if (__atomic_compare_exchange_n(
                        &S->table[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                    __atomic_fetch_add(&S->nstates, 1, __ATOMIC_RELAXED);
                    return true;
                }
                if (z == h) return false;
            }
        }
        __atomic_fetch_add(&S->table_full, 1, __ATOMIC_RELAXED);
        return false;
    }
    inline void bump(uint64_t & c, uint64_t n = 1) { __atomic_fetch_add(&c, n, __ATOMIC_RELAXED); }
    inline void transition(uint64_t n = 1) { bump(S->transitions, n); }
    inline void trace(uint64_t n = 1) { bump(S->traces, n); }
    inline void evaluation(bool nontrivial_case, uint64_t h)
    {
        bump(S->evaluations);
        if (nontrivial_case && state(h)) bump(S->nontrivial);
    }
    inline void sample(const std::string & s)
    {
        uint64_t i = __atomic_fetch_add(&S->nsamples, 1, __ATOMIC_RELAXED);
        if (i < 8) snprintf(S->samples[i], sizeof S->samples[i], "%s", s.c_str());
    }
    inline bool sampled(uint64_t n) { return n == 3 || n == 50 || n == 700 || n == 9000 || n == 60000; }
    inline std::vector<std::string> step_names;
    inline std::string join_steps()
    {
        std::string r;
        for (auto & x : step_names) r += (r.empty() ? "" : "; ") + x;
        return r;
    }
    inline void note(const std::string & k, const std::string & v) { notes[k] = v; }
    // where the time went
    inline double now()
    {
        struct timeval tv;
        gettimeofday(&tv, nullptr);
        return tv.tv_sec + 1e-6 * tv.tv_usec;
    }
    inline void trace_time(const std::string & label, double t0)
    {
        printf("%-40s %.1f s  transitions so far %lu\n", label.c_str(), now() - t0, S->transitions);
        fflush(stdout);
    }
    inline void note(const std::string & k, long v) { notes[k] = std::to_string(v); }

    inline std::string fmt(const char * f, ...)
    {
        char buf[4096];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        return buf;
    }

    // ---------------------------------------------------------------- reporting
    inline std::string escape(const std::string & s)
    {
        std::string r;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r;
    }

    inline std::string case_label()
    {
        std::string s = current;
        if (current_choices) {
            s += "|";
            for (int i = 0; i < current_len && i < (int) current_choices->size(); ++i)
                s += (i ? "," : "") + std::to_string((*current_choices)[i]);
        }
        return s;
    }

    inline void write_violation(const char * kind, const std::string & key, const std::string & msg)
    {
        std::string line = std::string("{\"kind\":\"") + kind + "\",\"key\":\"" + escape(key)
                         + "\",\"case\":\"" + escape(case_label()) + "\",\"msg\":\"" + escape(msg)
                         + "\"}\n";
        std::string path = out + ".viol";
        int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0) {
            if (::write(fd, line.data(), line.size()) < 0) {}
            ::close(fd);
        }
    }

    inline std::string what = "";    // a human-readable description of the current step

    inline void on_signal(int sig)
    {
        static volatile int once = 0;
        if (once++) _exit(3);
        const char * n = sig == SIGSEGV ? "SIGSEGV"
                       : sig == SIGABRT ? "SIGABRT"
                       : sig == SIGFPE  ? "SIGFPE"
                       : sig == SIGBUS  ? "SIGBUS"
                       : sig == SIGILL  ? "SIGILL"
                                        : "signal";
        write_violation("violation", std::string("crash-") + n,
                        std::string("the program died with ") + n + " in step: " + what);
        _exit(1);
    }

    inline uint64_t last_progress = ~0ull;
    inline int stuck = 0;
    inline int hang_seconds = 60;
    inline void on_tick(int)
    {
        if (S->progress == last_progress) {
            if (++stuck >= hang_seconds) {
                write_violation("violation", "hang",
                                "no progress for a minute in step: " + what);
                _exit(1);
            }
        } else {
            stuck = 0;
            last_progress = S->progress;
        }
    }

    inline void write_summary(bool complete)
    {
        std::string path = out + ".json";
        FILE * f = fopen(path.c_str(), "w");
        if (!f) { perror("summary"); _exit(2); }
        fprintf(f,
                "{\"transitions\":%lu,\"traces\":%lu,\"evaluations\":%lu,\"nontrivial\":%lu,"
                "\"checks\":%lu,\"states\":%lu,\"table_full\":%lu,\"complete\":%s,\"samples\":[",
                S->transitions, S->traces, S->evaluations, S->nontrivial, S->checks, S->nstates,
                S->table_full, complete ? "true" : "false");
        for (size_t i = 0; i < 8 && i < S->nsamples; ++i)
            fprintf(f, "%s\"%s\"", i ? "," : "", escape(S->samples[i]).c_str());
        fprintf(f, "],\"notes\":{");
        bool first = true;
        for (auto & [k, v] : notes) {
            fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", escape(k).c_str(), escape(v).c_str());
            first = false;
        }
        fprintf(f, "}}\n");
        fclose(f);
        // the distinct states, so that shards can be united
        path = out + ".states";
        f = fopen(path.c_str(), "wb");
        for (uint64_t i = 0; i < TABLE; ++i)
            if (S->table[i]) fwrite(&S->table[i], 8, 1, f);
        fclose(f);
    }

    inline std::set<std::string> seen_known;
    // a step broke the property: either a recorded finding or a violation
    inline void report(const Violation & v)
    {
        if (known_keys.count(v.key)) {
            auto & flag = S->known_seen[hash_str(v.key) % 16];
            if (!flag || seen_known.insert(v.key).second) {
                // (few processes write it down, not every one of them)
                if (__atomic_fetch_add(&flag, 1, __ATOMIC_RELAXED) < 64)
                    write_violation("known", v.key, v.msg);
            }
            return;
        }
        write_violation("violation", v.key, v.msg);
        write_summary(false);
        _exit(1);
    }

    [[noreturn]] inline void fail(const std::string & key, const std::string & msg)
    {
        throw Violation { key, msg };
    }

    inline void require(bool ok, const char * key, const char * f, ...)
    {
        ++S->checks;
        if (ok) return;
        char buf[4096];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        throw Violation { key, std::string(buf) + (what.empty() ? "" : " [step: " + what + "]") };
    }

    inline void init(int argc, char ** argv, const char * property)
    {
        prop = property;
        out = "mc-out";
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--out") out = v;
            else if (a == "--tier") tier = v;
            else if (a == "--shard") shard = atoi(v.c_str());
            else if (a == "--nshards") nshards = atoi(v.c_str());
            else if (a == "--seed") seed = atol(v.c_str());
            else if (a == "--case") { only = v; has_only = true; }
            else if (a == "--known") known_keys.insert(v);
            else { fprintf(stderr, "bad argument %s\n", a.c_str()); _exit(2); }
        }
        S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                            MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (S == MAP_FAILED) { perror("mmap"); _exit(2); }
        for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }) {
            struct sigaction sa;
            memset(&sa, 0, sizeof sa);
            sa.sa_handler = on_signal;
            sa.sa_flags = SA_ONSTACK;
            sigaction(s, &sa, nullptr);
        }
        static char altstack[1 << 16];
        stack_t ss;
        memset(&ss, 0, sizeof ss);
        ss.ss_sp = altstack;
        ss.ss_size = sizeof altstack;
        sigaltstack(&ss, nullptr);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_tick;
        sa.sa_flags = SA_RESTART | SA_ONSTACK;
        sigaction(SIGALRM, &sa, nullptr);
        struct itimerval it = { { 1, 0 }, { 1, 0 } };
        setitimer(ITIMER_REAL, &it, nullptr);
    }

    inline int finish()
    {
        write_summary(!has_only);
        if (has_only && !only_hit) {
            fprintf(stderr, "case not found: %s\n", only.c_str());
            return 2;
        }
        return 0;
    }

    // ---------------------------------------------------------------- input enumeration
    // run {body} as the case labelled {label} (skipped when it belongs to another shard)
    template <class F>
    inline void for_case(const std::string & label, F && body)
    {
        ++case_counter;
        if (has_only) {
            if (label != only) return;
            only_hit = true;
        } else if ((int) (case_counter % nshards) != shard)
            return;
        snprintf(current, sizeof current, "%s", label.c_str());
        current_choices = nullptr;
        what.clear();
        ++S->progress;
        if (sampled(case_counter) || (case_counter % 100003) == 0) sample(label);
        try {
            body();
        } catch (const Violation & v) {
            report(v);
        } catch (const std::exception & e) {
            report(Violation { "exception", std::string("unexpected exception: ") + e.what() });
        }
    }

    inline std::vector<int> parse_choices(const std::string & s)
    {
        std::vector<int> r;
        std::stringstream ss(s);
        std::string t;
        while (std::getline(ss, t, ',')) r.push_back(atoi(t.c_str()));
        return r;
    }

    // ---------------------------------------------------------------- operation sequences
    // Sys: int enabled(); void apply(int); void check(); void finish(); uint64_t hash();
    //      std::string name(int)
    // executes every sequence of exactly d operations, for d = 0..depth
    template <class Make>
    inline void explore(const std::string & label, int depth, Make make)
    {
        auto run = [&](std::vector<int> & choices, std::vector<int> & width, int d, int fresh,
                       bool sharded) -> int {
            // returns the position from which to backtrack (d if run to completion)
            current_len = 0;
            current_choices = &choices;
            ++S->progress;
            what = "construct";
            bool keep = sampled(S->traces) && d > 2;
            step_names.clear();
            auto sys = make();
            if (fresh <= 0) { sys.check(); state(sys.hash()); }
            for (int i = 0; i < d; ++i) {
                int n = sys.enabled();
                if (i < (int) choices.size()) {
                    // (the code may depend on where things are in memory: a history does not offer the
                    // same operations again; what is offered now is what is explored)
                    if (i < (int) width.size() && width[i] != n) width[i] = n, note("diverged " + label, "a history did not offer the same operations twice");
                    if (choices[i] >= n) { note("diverged " + label, "a history did not offer the same operations twice"); return i - 1; }
                } else {
                    choices.push_back(0);
                }
                if (i >= (int) width.size()) width.push_back(n);
                if (n == 0) { choices.resize(i); width.resize(i); d = i; break; }
                current_len = i + 1;
                if (sharded && i == 1
                    && (int) (mix(choices[0] + 1, choices[1] + 1) % nshards) != shard)
                    return 1;
                what = sys.name(choices[i]);
                if (keep) step_names.push_back(what);
                sys.apply(choices[i]);
                if (i >= fresh) {
                    transition();
                    sys.check();
                    state(sys.hash());
                }
            }
            what = "finish";
            if (keep) sample(label + ": " + join_steps());
            sys.finish();
            trace();
            return d - 1;
        };
        snprintf(current, sizeof current, "%s", label.c_str());
        if (has_only) {
            auto bar = only.find('|');
            if (only.substr(0, bar) != label) return;
            only_hit = true;
            auto c = parse_choices(bar == std::string::npos ? "" : only.substr(bar + 1));
            std::vector<int> w;
            int d = c.size();
            try {
                run(c, w, d, 0, false);
            } catch (const Violation & v) {
                report(v);
            }
            return;
        }
        double t0 = now();
        for (int d = 0; d <= depth; ++d) {
            if (d < 2 && shard != 0) continue;
            std::vector<int> choices, width;
            int fresh = 0;
            while (true) {
                int from;
                try {
                    from = run(choices, width, d, fresh, nshards > 1);
                } catch (const Violation & v) {
                    from = current_len - 1;
                    report(v);
                } catch (const std::exception & e) {
                    from = current_len - 1;
                    report(Violation { "exception",
                                       std::string("unexpected exception: ") + e.what() });
                }
                // advance
                if (from >= (int) choices.size()) from = (int) choices.size() - 1;
                int p = from;
                while (p >= 0 && choices[p] + 1 >= width[p]) --p;
                if (p < 0) break;
                choices.resize(p + 1);
                width.resize(p + 1);
                ++choices[p];
                fresh = p;
            }
        }
        trace_time(label, t0);
        current_choices = nullptr;
    }

    // breadth-first search, merging states with equal canonical form
    // (every transition re-executes its shortest history on a fresh object)
    template <class Make>
    inline void bfs(const std::string & label, int depth, size_t cap, Make make)
    {
        snprintf(current, sizeof current, "%s", label.c_str());
        std::vector<int> cur;
        auto go = [&](const std::vector<int> & h, int & n, uint64_t & hash) -> bool {
            cur.clear();
            current_choices = &cur;
            current_len = 0;
            ++S->progress;
            try {
                what = "construct";
                auto sys = make();
                for (size_t i = 0; i < h.size(); ++i) {
                    if (h[i] >= sys.enabled()) { note("diverged " + label, "a history did not offer the same operations twice"); return false; }
                    cur.push_back(h[i]);
                    current_len = i + 1;
                    what = sys.name(h[i]);
                    sys.apply(h[i]);
                }
                sys.check();
                n = sys.enabled();
                hash = sys.hash();
                what = "finish";
                sys.finish();
                trace();
                return true;
            } catch (const Violation & v) {
                report(v);
                return false;
            } catch (const std::exception & e) {
                report(Violation { "exception", std::string("unexpected exception: ") + e.what() });
                return false;
            }
        };
        if (has_only) {
            auto bar = only.find('|');
            if (only.substr(0, bar) != label) return;
            only_hit = true;
            int n;
            uint64_t h;
            go(parse_choices(bar == std::string::npos ? "" : only.substr(bar + 1)), n, h);
            return;
        }
        if (nshards > 1 && shard != (int) (hash_str(label) % nshards)) return;
        std::unordered_set<uint64_t> seen;
        struct Node { std::vector<int> h; int n; };
        std::vector<Node> frontier, next;
        int n;
        uint64_t h;
        if (!go({}, n, h)) return;
        seen.insert(h);
        state(h);
        frontier.push_back({ {}, n });
        bool capped = false;
        int done = 0;
        for (int d = 0; d < depth && !frontier.empty(); ++d) {
            next.clear();
            for (auto & node : frontier) {
                for (int c = 0; c < node.n; ++c) {
                    if (seen.size() >= cap) { capped = true; break; }
                    auto hist = node.h;
                    hist.push_back(c);
                    transition();
                    if (!go(hist, n, h)) continue;
                    if (seen.insert(h).second) {
                        state(h);
                        next.push_back({ hist, n });
                    }
                }
                if (capped) break;
            }
            if (capped) break;
            done = d + 1;
            frontier.swap(next);
        }
        note("bfs " + label, fmt("complete to depth %d, %zu states%s%s", done, seen.size(),
                                 capped ? ", stopped at the state cap" : "",
                                 frontier.empty() ? ", state space exhausted" : ""));
        current_choices = nullptr;
    }

    // ---------------------------------------------------------------- fork tree
    // explores all operation sequences up to {depth} from the current state of {sys}; every step
    // runs in its own forked process, so process-wide singletons are snapshotted for free
    template <class Sys>
    inline bool fork_step(Sys & sys, std::vector<int> & choices, int c, int depth,
                          const std::vector<int> * fixed);

    template <class Sys>
    inline bool fork_tree(Sys & sys, std::vector<int> & choices, int depth,
                          const std::vector<int> * fixed)
    {
        // at the end of a history there is no state to preserve
        if ((int) choices.size() >= depth) {
            what = "teardown";
            try {
                sys.finish();
            } catch (const Violation & v) {
                report(v);
            }
            if (choices.size() >= 2 || shard == 0) trace();
            return true;
        }
        // teardown of the state reached so far, in a child of its own
        {
            fflush(nullptr);
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); _exit(2); }
            if (pid == 0) {
                struct itimerval it = { { 1, 0 }, { 1, 0 } };
                setitimer(ITIMER_REAL, &it, nullptr);
                current_choices = &choices;
                current_len = choices.size();
                what = "teardown";
                try {
                    sys.finish();
                } catch (const Violation & v) {
                    report(v);
                }
                if (choices.size() >= 2 || shard == 0) trace();
                _exit(0);
            }
            int st;
            while (waitpid(pid, &st, 0) < 0) {}
            bump(S->progress);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                if (WIFSIGNALED(st))
                    write_violation("violation", "crash",
                                    fmt("killed by signal %d in teardown", WTERMSIG(st)));
                return false;
            }
        }
        int n = sys.enabled();
        for (int c = 0; c < n; ++c) {
            if (fixed) {
                if (choices.size() >= fixed->size()) return true;
                if ((*fixed)[choices.size()] != c) continue;
            } else if (nshards > 1 && choices.size() == 1
                       && (int) (mix(choices[0] + 1, c + 1) % nshards) != shard)
                continue;
            if (!fork_step(sys, choices, c, depth, fixed)) return false;
        }
        return true;
    }

    template <class Sys>
    inline bool fork_step(Sys & sys, std::vector<int> & choices, int c, int depth,
                          const std::vector<int> * fixed)
    {
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (pid == 0) {
            struct itimerval it = { { 1, 0 }, { 1, 0 } };
            setitimer(ITIMER_REAL, &it, nullptr);
            choices.push_back(c);
            current_choices = &choices;
            current_len = choices.size();
            what = sys.name(c);
            step_names.push_back(what);
            if (sampled(S->transitions)) sample(std::string(mc::current) + ": " + join_steps());
            try {
                sys.apply(c);
                sys.check();
            } catch (const Violation & v) {
                report(v);
                _exit(0);    // a recorded finding: do not explore beyond it
            } catch (const std::exception & e) {
                report(Violation { "exception", std::string("unexpected exception: ") + e.what() });
                _exit(0);
            }
            // (the first level is executed by every shard, and counted by one)
            if (choices.size() >= 2 || shard == 0) bump(S->transitions);
            state(sys.hash());
            _exit(fork_tree(sys, choices, depth, fixed) ? 0 : 1);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0) {}
        bump(S->progress);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            if (WIFSIGNALED(st)) {
                choices.push_back(c);
                current_choices = &choices;
                current_len = choices.size();
                what = sys.name(c);
                write_violation("violation", "crash", fmt("killed by signal %d in step: %s",
                                                          WTERMSIG(st), what.c_str()));
                choices.pop_back();
            }
            return false;
        }
        return true;
    }

    // run the whole tree of {make()} under {label} (in a child, so that configurations do not mix)
    template <class Make>
    inline void fork_explore(const std::string & label, int depth, Make make)
    {
        std::vector<int> fixed, * fx = nullptr;
        if (has_only) {
            auto bar = only.find('|');
            if (only.substr(0, bar) != label) return;
            only_hit = true;
            fixed = parse_choices(bar == std::string::npos ? "" : only.substr(bar + 1));
            fx = &fixed;
            depth = fixed.size();
        }
        snprintf(current, sizeof current, "%s", label.c_str());
        double t0 = now();
        ++S->progress;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (pid == 0) {
            struct itimerval it = { { 1, 0 }, { 1, 0 } };
            setitimer(ITIMER_REAL, &it, nullptr);
            std::vector<int> choices;
            current_choices = &choices;
            current_len = 0;
            what = "construct";
            bool ok = true;
            try {
                auto sys = make();
                sys.check();
                state(sys.hash());
                ok = fork_tree(sys, choices, depth, fx);
                _exit(ok ? 0 : 1);
            } catch (const Violation & v) {
                report(v);
            }
            _exit(ok ? 0 : 1);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 2) _exit(2);
            if (WIFSIGNALED(st))
                write_violation("violation", "crash", fmt("killed by signal %d", WTERMSIG(st)));
            write_summary(false);
            _exit(1);
        }
        trace_time(label, t0);
    }

    // what becomes of {body}, tried out in a process of its own: 0 it returned true, 1 it returned
    // false, 2 it threw an exception, 3 it died (abort, signal, exit)
    template <class F>
    inline int probe(F && body)
    {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (pid == 0) {
            for (int sig : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }) signal(sig, SIG_DFL);
            int null = ::open("/dev/null", O_WRONLY);
            dup2(null, 1);
            dup2(null, 2);
            struct itimerval it = { { 0, 0 }, { 20, 0 } };
            signal(SIGALRM, SIG_DFL);
            setitimer(ITIMER_REAL, &it, nullptr);
            int r = 3;
            try {
                r = body() ? 0 : 1;
            } catch (...) {
                r = 2;
            }
            _exit(100 + r);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0) {}
        bump(S->progress);
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 100 && WEXITSTATUS(st) <= 102)
            return WEXITSTATUS(st) - 100;
        return 3;
    }

    // run {body} in a forked child (process-wide state does not leak into what follows)
    template <class F>
    inline void isolated(const std::string & label, F && body)
    {
        if (has_only && only.substr(0, only.find('|')) != label) return;
        only_hit = only_hit || has_only;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (pid == 0) {
            struct itimerval it = { { 1, 0 }, { 1, 0 } };
            setitimer(ITIMER_REAL, &it, nullptr);
            body();
            fflush(nullptr);
            _exit(0);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0) {}
        bump(S->progress);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 2) _exit(2);
            if (WIFSIGNALED(st)) {
                snprintf(current, sizeof current, "%s", label.c_str());
                write_violation("violation", "crash", fmt("killed by signal %d", WTERMSIG(st)));
            }
            write_summary(false);
            _exit(1);
        }
    }

    // run {body} in a forked child as one enumerated case (process-wide state does not leak)
    template <class F>
    inline void fork_case(const std::string & label, F && body)
    {
        for_case(label, [&] {
            fflush(nullptr);
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); _exit(2); }
            if (pid == 0) {
                struct itimerval it = { { 1, 0 }, { 1, 0 } };
                setitimer(ITIMER_REAL, &it, nullptr);
                try {
                    body();
                } catch (const Violation & v) {
                    report(v);
                } catch (const std::exception & e) {
                    report(Violation { "exception",
                                       std::string("unexpected exception: ") + e.what() });
                }
                _exit(0);
            }
            int st;
            while (waitpid(pid, &st, 0) < 0) {}
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                if (WIFEXITED(st) && WEXITSTATUS(st) != 1) _exit(2);
                if (WIFSIGNALED(st))
                    write_violation("violation", "crash", fmt("killed by signal %d", WTERMSIG(st)));
                write_summary(false);
                _exit(1);
            }
        });
    }
}
