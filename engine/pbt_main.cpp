#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <set>
#include <algorithm>
#include <iostream>
#include <memory>

extern "C" __attribute__((visibility("default"))) const char* __tsan_default_options()
{
    return "exitcode=77:halt_on_error=1:abort_on_error=0:report_signal_unsafe=0:die_after_fork=0:atexit_sleep_ms=0:report_thread_leaks=0:history_size=4:color=never:detect_deadlocks=0";
}
#if defined(__SANITIZE_ADDRESS__) || defined(__has_feature)
extern "C" const char* __asan_default_options()
{
    return "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=6144:hard_rss_limit_mb=6144:detect_stack_use_after_return=0:malloc_context_size=10:quarantine_size_mb=32:handle_segv=1:print_summary=1:color=never:symbolize=1";
}
#endif

namespace
{
    using namespace pbt;
    enum : int { kOk = 0, kFail = 1, kSan = 77, kCpuHang = 78, kFindingPresent = 40, kFindingAbsent = 41 };

    struct Shared
    {
        volatile u64 current;       // case index + 1, 0 when idle
        volatile u64 done;
        char message[8192];
        Record rec;
    };
    Shared* map_shared()
    {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
        return static_cast<Shared*>(p);
    }
    double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
    void set_cpu_limit(int seconds)
    {
        itimerval tv{}; tv.it_value.tv_sec = seconds;
        setitimer(ITIMER_PROF, &tv, nullptr);
    }
    void on_prof(int) { static char const m[] = "\npbt: case exceeded its CPU limit (hang)\n"; (void)!write(2, m, sizeof m - 1); _exit(kCpuHang); }
    constexpr int kCpuLimit = 30;
    constexpr double kWallLimit = 90.0;

    void set_message(Shared* sh, std::string const& m)
    {
        std::size_t n = std::min(m.size(), sizeof(sh->message) - 1);
        std::memcpy(sh->message, m.data(), n); sh->message[n] = 0;
    }

    // Runs one case in this process. Returns true if it passed.
    bool run_case(Suite& suite, Case& c, Shared* sh)
    {
        try
        {
            suite.fn(c);
            if (!c.softFailure.empty()) { set_message(sh, c.softFailure); return false; }
            return true;
        }
        catch (Failure const& f) { set_message(sh, f.msg); }
        catch (std::exception const& e) { set_message(sh, std::string{ "unexpected exception: " } + e.what()); }
        catch (...) { set_message(sh, "unexpected exception of unknown type"); }
        return false;
    }

    void redirect(std::string const& errFile)
    {
        int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n);
        int e = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (e >= 0) { dup2(e, 2); close(e); }
    }

    struct Outcome { int kind = kOk; std::string message; std::vector<u64> choices; std::string trace; };
    bool failed(int kind) { return kind != kOk; }
    char const* kind_name(int k)
    {
        switch (k) { case kOk: return "ok"; case kFail: return "assertion"; case kSan: return "sanitizer"; case kCpuHang: return "hang"; case -1: return "deadlock"; default: return "crash"; }
    }
    std::string gTmp;
    u64 gSeed = 1;

    std::string tail_of(std::string const& file)
    {
        std::ifstream f(file); std::string line, out; int n = 0;
        while (std::getline(f, line) && n < 60)
        {
            if (line.find("#0 ") == std::string::npos && n == 0 && line.empty()) continue;
            out += line + "\n"; ++n; if (out.size() > 5000) break;
        }
        return out;
    }

    template <typename MakeSource>
    Outcome in_child(Suite& suite, Shared* sh, MakeSource make, bool trace, double wallLimit)
    {
        std::string err = gTmp + "/attempt.err", tr = gTmp + "/attempt.trace";
        unlink(tr.c_str());
        sh->message[0] = 0; sh->rec.n = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            redirect(err);
            signal(SIGPROF, on_prof); set_cpu_limit(kCpuLimit);
            Source s = make(sh->rec);
            Case c{ s, trace };
            if (trace) c.traceFd = open(tr.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            bool ok = run_case(suite, c, sh);
            _exit(ok ? kOk : kFail);
        }
        Outcome o;
        int st = 0; double start = now();
        for (;;)
        {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (now() - start > wallLimit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.kind = -1; o.message = "no progress within the wall-clock limit (deadlock)"; break; }
            usleep(now() - start < 0.02 ? 200 : 2000);
        }
        if (o.kind != -1)
        {
            if (WIFEXITED(st)) o.kind = WEXITSTATUS(st);
            else o.kind = 128 + WTERMSIG(st);
            if (o.kind == kFail) o.message = sh->message;
            else if (o.kind != kOk) o.message = std::string{ kind_name(o.kind) } + " (status " + std::to_string(o.kind) + ")\n" + tail_of(err);
        }
        o.choices.assign(const_cast<u64*>(sh->rec.v), const_cast<u64*>(sh->rec.v) + sh->rec.n);
        if (trace) { std::ifstream f(tr); std::stringstream b; b << f.rdbuf(); o.trace = b.str(); }
        return o;
    }
    Outcome attempt(Suite& suite, Shared* sh, std::vector<u64> const& choices, bool trace = false, double wall = kWallLimit)
    {
        return in_child(suite, sh, [&](Record& r) { return Source{ r, choices }; }, trace, wall);
    }

    int clazz(int kind) { return kind == kFail ? 1 : kind == kCpuHang || kind == -1 ? 3 : 2; }

    std::vector<u64> shrink(Suite& suite, Shared* sh, Outcome const& first, double budget)
    {
        double end = now() + budget;
        std::vector<u64> best = first.choices;
        int want = clazz(first.kind);
        int attempts = 0;
        auto tryit = [&](std::vector<u64> const& cand) -> bool
        {
            if (cand.size() > best.size() || (cand.size() == best.size() && !(cand < best))) return false;
            ++attempts;
            auto o = attempt(suite, sh, cand, false, 20.0);
            if (failed(o.kind) && clazz(o.kind) == want)
            {
                best = cand;
                if (o.choices.size() < best.size() || (o.choices.size() == best.size() && o.choices < best)) best = o.choices;
                return true;
            }
            return false;
        };
        bool improved = true;
        while (improved && now() < end && attempts < 4000)
        {
            improved = false;
            for (std::size_t k = std::max<std::size_t>(best.size() / 2, 1); k >= 1; k /= 2)
            {
                for (std::size_t i = best.size(); i > 0 && now() < end;)
                {
                    std::size_t from = i > k ? i - k : 0;
                    if (from >= best.size()) { i = best.size(); continue; }
                    auto cand = best;
                    cand.erase(cand.begin() + from, cand.begin() + std::min(i, cand.size()));
                    if (tryit(cand)) { improved = true; i = std::min(from + 0, best.size()); }
                    else
                    {
                        // delete and reduce a preceding length by one
                        i = from;
                    }
                }
                if (k == 1) break;
            }
            for (std::size_t k = 16; k >= 1; k /= 4)
                for (std::size_t i = 0; i < best.size() && now() < end; i += k)
                {
                    auto cand = best; bool any = false;
                    for (std::size_t j = i; j < std::min(i + k, cand.size()); ++j) if (cand[j]) { cand[j] = 0; any = true; }
                    if (any && tryit(cand)) improved = true;
                }
            for (std::size_t i = 0; i < best.size() && now() < end; ++i)
            {
                u64 lo = 0;
                while (i < best.size() && lo < best[i] && now() < end)
                {
                    u64 mid = lo + (best[i] - lo) / 2;
                    auto cand = best; cand[i] = mid;
                    if (tryit(cand)) improved = true; else lo = mid + 1;
                }
            }
            // lower a value and delete one later value (drops one element of a counted list)
            for (std::size_t i = 0; i < best.size() && now() < end; ++i)
                if (best[i] > 0)
                    for (std::size_t j = i + 1; j < std::min(best.size(), i + 6) && now() < end; ++j)
                    {
                        auto cand = best; cand[i]--; cand.erase(cand.begin() + j);
                        if (tryit(cand)) { improved = true; break; }
                    }
        }
        return best;
    }

    std::string json(std::string const& s)
    {
        std::string r = "\""; char b[8];
        for (unsigned char c : s)
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n";
            else if (c == '\t') r += "\\t";
            else if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        return r + "\"";
    }

    Suite* find_suite(std::string const& n) { for (auto s = suites(); s; s = s->next) if (n == s->name) return s; return nullptr; }

    bool write_replay(std::string const& path, std::string const& property, std::string const& suite, Outcome const& o)
    {
        std::ofstream f(path);
        f << "property " << property << "\nsuite " << suite << "\nkind " << kind_name(o.kind) << "\nchoices " << o.choices.size();
        for (auto v : o.choices) f << ' ' << v;
        f << "\n--- message\n" << o.message << "\n--- trace of the shrunk case\n" << o.trace << "\n";
        return !!f;
    }
    bool read_replay(std::string const& path, std::string& suite, std::vector<u64>& choices)
    {
        std::ifstream f(path); std::string w;
        while (f >> w)
        {
            if (w == "suite") f >> suite;
            else if (w == "choices") { std::size_t n; f >> n; choices.resize(n); for (auto& v : choices) f >> v; return true; }
            else std::getline(f, w);
        }
        return false;
    }
    u64 case_seed(Suite const& s, u64 idx)
    {
        u64 x = gSeed * 0x9e3779b97f4a7c15ull;
        for (char const* p = s.name; *p; ++p) { x ^= static_cast<unsigned char>(*p); splitmix(x); }
        x ^= idx * 0xd1342543de82ef95ull; splitmix(x); return splitmix(x);
    }

    struct Stats { std::map<std::string, u64> labels; u64 evaluations = 0, nontrivial = 0, draws = 0; std::vector<u64> hashes; std::vector<std::pair<std::string, std::string>> samples; };
}

std::string pbt::tmpDir() { return gTmp + "/p" + std::to_string(getpid()); }

int main(int argc, char** argv)
{
    std::string property = "X00", tier = "quick", evidence, replays = ".", known, replay, onlySuite;
    double budget = 0, scale = 1; unsigned jobs = 8;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto val = [&] { return std::string{ i + 1 < argc ? argv[++i] : "" }; };
        if (a == "--property") property = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") gSeed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--evidence") evidence = val();
        else if (a == "--replays") replays = val();
        else if (a == "--known") known = val();
        else if (a == "--replay") replay = val();
        else if (a == "--suite") onlySuite = val();
        else if (a == "--budget") budget = std::atof(val().c_str());
        else if (a == "--scale") scale = std::atof(val().c_str());
        else if (a == "--jobs") jobs = std::atoi(val().c_str());
        else if (a == "--tmp") gTmp = val();
        else { std::cerr << "unknown argument " << a << "\n"; return 2; }
    }
    bool thorough = tier == "thorough";
    if (budget <= 0) budget = thorough ? 900 : 120;
    if (gTmp.empty()) { char t[] = "/tmp/pbtXXXXXX"; gTmp = mkdtemp(t); }
    double started = now();
    Shared* attemptShared = map_shared();

    if (!replay.empty())
    {
        std::string sn; std::vector<u64> ch;
        std::ifstream probe(replay); std::string first; std::getline(probe, first);
        if (!read_replay(replay, sn, ch)) { std::cerr << "cannot read replay\n"; return 2; }
        Suite* s = find_suite(sn);
        if (!s) { std::cerr << "no such suite: " << sn << "\n"; return 2; }
        auto o = attempt(*s, attemptShared, ch, true);
        std::cout << o.trace << "\n" << kind_name(o.kind) << ": " << o.message << "\n";
        if (failed(o.kind)) { std::cout << "VIOLATION property=" << property << " replay=" << replay << "\n"; return 1; }
        std::cout << "replay passed\n";
        return 0;
    }

    std::set<std::string> knownIds;
    if (!known.empty()) { std::ifstream f(known); std::string line; while (std::getline(f, line)) { std::istringstream l(line); std::string k, id; l >> k >> id; if (k == "finding:") knownIds.insert(id); } }

    int violations = 0; u64 findingsSeen = 0;
    std::vector<std::string> knownLines;
    for (auto f = onlySuite.empty() ? findings() : nullptr; f; f = f->next)
    {
        std::string err = gTmp + "/finding.err";
        std::cout.flush();
        pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            redirect(err); signal(SIGPROF, on_prof); set_cpu_limit(10);
            bool present = true;
            try { present = f->fn(); } catch (...) { present = true; }
            _exit(present ? kFindingPresent : kFindingAbsent);
        }
        int st = 0; waitpid(pid, &st, 0);
        bool present = !(WIFEXITED(st) && WEXITSTATUS(st) == kFindingAbsent);
        if (!present) continue;
        ++findingsSeen;
        if (knownIds.count(f->id)) { knownLines.push_back(std::string("KNOWN-FINDING: property=") + property + " " + f->id + ": " + f->what); }
        else
        {
            std::string path = replays + "/" + property + "-" + f->id + ".txt";
            std::ofstream(path) << "property " << property << "\nfinding " << f->id << "\n" << f->what << "\n";
            std::cout << "VIOLATION property=" << property << " replay=" << path << "\n"; ++violations;
        }
    }
    for (auto& l : knownLines) std::cout << l << "\n";
    std::cout.flush();

    Stats total; std::map<std::string, u64> perSuite; bool budgetHit = false;
    std::string ruleSuites;
    std::vector<Suite*> run;
    for (auto s = suites(); s; s = s->next) if (onlySuite.empty() || std::string{ s->name }.find(onlySuite) == 0) run.push_back(s);
    double perSuiteBudget = budget;
    std::vector<Shared*> shared; for (unsigned j = 0; j < jobs; ++j) shared.push_back(map_shared());
    for (std::size_t si = 0; si < run.size() && violations == 0; ++si)
    {
        Suite& suite = *run[si];
        u64 n = static_cast<u64>((thorough ? suite.thorough : suite.quick) * scale + 0.5); if (n == 0) n = 1;
        unsigned w = std::min<u64>(jobs, n); if (suite.jobs) w = std::min(w, suite.jobs);
        double remaining = started + budget - now();
        perSuiteBudget = std::max(remaining / (run.size() - si) * 2.0, 5.0); // a slow suite may borrow, never starve
        double deadline = now() + std::min(perSuiteBudget, std::max(remaining, 5.0));
        std::vector<pid_t> pids(w, 0); std::vector<u64> seen(w, 0); std::vector<double> seenAt(w, now());
        std::cout.flush();
        for (unsigned j = 0; j < w; ++j)
        {
            auto sh = shared[j]; sh->current = 0; sh->done = 0; sh->message[0] = 0;
            pid_t pid = fork();
            if (pid == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                redirect(gTmp + "/w" + std::to_string(j) + ".err");
                signal(SIGPROF, on_prof);
                Stats st; u64 sampled = 0; bool ok = true;
                for (u64 i = j; i < n && now() < deadline; i += w)
                {
                    sh->current = i + 1;
                    set_cpu_limit(kCpuLimit);
                    Source s{ sh->rec, case_seed(suite, i) };
                    bool wantTrace = j == 0 && sampled < 2 && i >= w * 3;
                    Case c{ s, wantTrace };
                    if (!run_case(suite, c, sh)) { ok = false; break; }
                    ++st.evaluations; st.draws += s.drawn();
                    for (auto l : c.labels) ++st.labels[l];
                    if (c.isNontrivial)
                    {
                        ++st.nontrivial;
                        u64 h = 1469598103934665603ull ^ s.drawn();
                        for (char const* p = suite.name; *p; ++p) h = (h ^ static_cast<unsigned char>(*p)) * 1099511628211ull;
                        for (std::uint32_t k = 0; k < s.drawn(); ++k) { h ^= sh->rec.v[k]; h *= 1099511628211ull; h ^= h >> 29; }
                        st.hashes.push_back(h);
                        if (wantTrace && c.trace.tellp() > 0) { st.samples.push_back({ suite.name, c.trace.str().substr(0, 1500) }); ++sampled; }
                    }
                    sh->done = sh->done + 1;
                }
                set_cpu_limit(0);
                if (ok) sh->current = 0;
                std::ofstream f(gTmp + "/w" + std::to_string(j) + ".stats", std::ios::binary);
                f << st.evaluations << ' ' << st.nontrivial << ' ' << st.draws << ' ' << st.labels.size() << '\n';
                for (auto& l : st.labels) f << l.second << ' ' << l.first << '\n';
                f << st.samples.size() << '\n';
                for (auto& x : st.samples) f << x.second.size() << '\n' << x.second;
                f << st.hashes.size() << '\n';
                f.write(reinterpret_cast<char const*>(st.hashes.data()), st.hashes.size() * sizeof(u64));
                f.close();
                _exit(ok ? kOk : kFail);
            }
            pids[j] = pid;
        }
        struct Bad { unsigned worker; u64 idx; int kind; };
        std::vector<Bad> bad; unsigned alive = w;
        while (alive && bad.empty())
        {
            int st; pid_t r = waitpid(-1, &st, WNOHANG);
            if (r > 0)
            {
                for (unsigned j = 0; j < w; ++j) if (pids[j] == r)
                {
                    pids[j] = 0; --alive;
                    int k = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
                    if (k != kOk) bad.push_back({ j, shared[j]->current, k });
                }
                continue;
            }
            double t = now();
            for (unsigned j = 0; j < w; ++j) if (pids[j])
            {
                if (shared[j]->current != seen[j]) { seen[j] = shared[j]->current; seenAt[j] = t; }
                else if (seen[j] && t - seenAt[j] > kWallLimit) { bad.push_back({ j, seen[j], -1 }); break; }
            }
            usleep(5000);
        }
        if (!bad.empty())
        {
            usleep(100000); // let simultaneous failures land, then prefer the lowest case number
            for (unsigned j = 0; j < w; ++j) if (pids[j])
            {
                int st; pid_t r = waitpid(pids[j], &st, WNOHANG);
                if (r == pids[j])
                {
                    pids[j] = 0; int k = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
                    if (k != kOk) bad.push_back({ j, shared[j]->current, k });
                }
                else { kill(pids[j], SIGKILL); waitpid(pids[j], &st, 0); pids[j] = 0; }
            }
            std::sort(bad.begin(), bad.end(), [](auto& a, auto& b) { return a.idx < b.idx; });
            auto b = bad.front(); auto sh = shared[b.worker];
            Outcome o; o.kind = b.kind;
            o.choices.assign(const_cast<u64*>(sh->rec.v), const_cast<u64*>(sh->rec.v) + sh->rec.n);
            o.message = b.kind == kFail ? sh->message : std::string{ kind_name(b.kind) } + "\n" + tail_of(gTmp + "/w" + std::to_string(b.worker) + ".err");
            std::cout << "failure in suite " << suite.name << " case " << b.idx - 1 << " (" << kind_name(b.kind) << "); shrinking\n" << std::flush;
            Outcome best = o; unsigned reproduced = 0;
            if (b.idx == 0) std::cout << "worker ended outside a case: status " << b.kind << "\n" << o.message << "\n";
            else if (clazz(o.kind) == 3) { reproduced = failed(attempt(suite, attemptShared, o.choices, false, 60.0).kind) ? 3 : 0; }
            else
            {
                if (failed(attempt(suite, attemptShared, o.choices).kind))
                    best.choices = shrink(suite, attemptShared, o, thorough ? 90 : 40);
                for (int k = 0; k < 3; ++k)
                {
                    auto again = attempt(suite, attemptShared, best.choices, true);
                    if (failed(again.kind)) { ++reproduced; auto ch = best.choices; best = again; best.choices = ch; }
                }
                if (reproduced == 0) // schedule dependent: look for the same failure among repetitions
                    for (int k = 0; k < 200 && reproduced == 0; ++k)
                    {
                        auto again = attempt(suite, attemptShared, o.choices, true);
                        if (failed(again.kind)) { reproduced = 1; auto ch = o.choices; best = again; best.choices = ch; }
                    }
            }
            if (best.message.empty()) best.message = o.message;
            std::string path = replays + "/" + property + "-" + suite.name + ".txt";
            best.message += "\n(seed " + std::to_string(gSeed) + ", case " + std::to_string(b.idx ? b.idx - 1 : 0) + ", reproduced " + std::to_string(reproduced) + " of 3 replays)";
            write_replay(path, property, suite.name, best);
            std::cout << "--- " << kind_name(best.kind) << ": " << best.message << "\n--- shrunk case (" << best.choices.size() << " choices)\n" << best.trace << "\n";
            std::cout << "VIOLATION property=" << property << " replay=" << path << "\n";
            ++violations;
        }
        for (unsigned j = 0; j < w; ++j)
        {
            std::string fn = gTmp + "/w" + std::to_string(j) + ".stats";
            std::ifstream f(fn, std::ios::binary);
            u64 e, nt, d, nl;
            if (!(f >> e >> nt >> d >> nl)) continue;
            total.evaluations += e; total.nontrivial += nt; total.draws += d; perSuite[suite.name] += e;
            for (u64 k = 0; k < nl; ++k) { u64 cnt; std::string l; f >> cnt; f.get(); std::getline(f, l); total.labels[std::string{ suite.name } + ": " + l] += cnt; }
            u64 ns; f >> ns; for (u64 k = 0; k < ns; ++k) { u64 len; f >> len; f.get(); std::string t(len, 0); f.read(&t[0], len); total.samples.push_back({ suite.name, t }); }
            u64 nh; f >> nh; f.get(); std::vector<u64> hs(nh); f.read(reinterpret_cast<char*>(hs.data()), nh * sizeof(u64));
            total.hashes.insert(total.hashes.end(), hs.begin(), hs.end());
            f.close(); unlink(fn.c_str());
        }
        if (violations == 0 && perSuite[suite.name] < n) budgetHit = true;
    }
    std::sort(total.hashes.begin(), total.hashes.end());
    u64 distinct = std::unique(total.hashes.begin(), total.hashes.end()) - total.hashes.begin();
    double wall = now() - started;
    if (!evidence.empty())
    {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << json(property) << ",\n \"tier\": " << json(tier) << ",\n \"seed\": " << gSeed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
        f << "  \"evaluations\": " << total.evaluations << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"rule\": @RULE@,\n  \"samples\": [";
        std::map<std::string, int> per; bool firstSample = true;
        for (auto& s : total.samples) { if (per[s.first]++ >= 1) continue; f << (firstSample ? "\n   " : ",\n   ") << "{\"suite\": " << json(s.first) << ", \"case\": " << json(s.second) << "}"; firstSample = false; }
        f << "],\n  \"cases_per_suite\": {"; bool first = true;
        for (auto& s : perSuite) { f << (first ? "" : ", ") << json(s.first) << ": " << s.second; first = false; }
        f << "},\n  \"classes\": {"; first = true;
        for (auto& l : total.labels) { f << (first ? "" : ", ") << json(l.first) << ": " << l.second; first = false; }
        f << "},\n  \"random_draws\": " << total.draws << ",\n  \"stopped_by_time_budget\": " << (budgetHit ? "true" : "false") << ",\n  \"known_findings_present\": " << findingsSeen << "\n },\n";
        f << " \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }
    std::cout << property << ": " << total.evaluations << " cases, " << distinct << " distinct non-trivial, " << wall << " s" << (budgetHit ? " (time budget reached)" : "") << "\n";
    if (!onlySuite.empty() || std::getenv("PBT_VERBOSE")) for (auto& l : total.labels) std::cout << "   " << l.first << " " << l.second << "\n";
    return violations ? 1 : 0;
}
