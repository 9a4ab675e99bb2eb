// Small property-based testing engine.
//  - every generated case is a sequence of integer choices (as in Hypothesis): generators draw from it, shrinking works
//    on it, and a replay file is that sequence; 0 is always the simplest choice.
//  - every batch of cases runs in a freshly forked process: crashes, exit(), hangs and aborts of the code under test
//    are observed as failures, and process-wide cached state (camera parameters...) can differ from batch to batch.
//  - nothing here depends on the wall clock for a verdict: budgets are case counts, hangs are CPU-time limits.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <random>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// std::random_device of the code under test (flann shuffles with it) is replaced by a deterministic stream, restarted
// for each case
namespace pbt {
inline uint64_t& entropy()
{
    static uint64_t state = 1;
    return state;
}
} // namespace pbt
namespace std {
random_device::result_type random_device::_M_getval()
{
    uint64_t& x = pbt::entropy();
    x += 0x9E3779B97F4A7C15ULL;
    uint64_t z = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    return static_cast<result_type>((z ^ (z >> 27)) >> 16);
}
} // namespace std

namespace pbt {

constexpr size_t MAX_CHOICES = 1u << 17;

struct Failure
{
    std::string key;
    std::string msg;
};
struct Discard
{
};

inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// Shared with the parent process, so that the choices of a crashing case are not lost
struct Shared
{
    volatile uint64_t caseIndex;
    volatile uint64_t setupCount;
    volatile uint64_t caseCount;
    volatile uint64_t inCase; // 0: before/after, 1: setup, 2: in a case
    char key[256];
    char msg[8192];
    uint64_t setup[4096];
    uint64_t choices[MAX_CHOICES];
};

class Source
{
  public:
    // random mode
    Source(uint64_t seed, uint64_t* rec, size_t cap, volatile uint64_t* count) :
        _state(seed),
        _rec(rec),
        _cap(cap),
        _count(count)
    {
        *_count = 0;
    }
    // replay mode
    Source(const std::vector<uint64_t>& replay, uint64_t* rec, size_t cap, volatile uint64_t* count) :
        _replay(&replay),
        _rec(rec),
        _cap(cap),
        _count(count)
    {
        *_count = 0;
    }

    // uniform integer in [0, bound)
    uint64_t draw(uint64_t bound)
    {
        if (bound <= 1)
            return 0;
        if (*_count >= _cap)
            throw Discard {};
        uint64_t v;
        if (_replay != nullptr)
            v = (_pos < _replay->size()) ? (*_replay)[_pos] : 0;
        else
            v = splitmix(_state);
        ++_pos;
        v = (_replay != nullptr) ? std::min(v, bound - 1) : (v % bound);
        _rec[*_count] = v;
        *_count = *_count + 1;
        return v;
    }

    // integer in [lo, hi]
    int64_t integer(int64_t lo, int64_t hi)
    {
        return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
    }
    // true with a probability of 1 / n (false is the simplest)
    bool chance(uint64_t n) { return draw(n) == n - 1; }
    bool boolean() { return draw(2) == 1; }

    // uniform in [0, 1)
    double unit() { return static_cast<double>(draw(1ull << 53)) / 9007199254740992.0; }

    // real in [lo, hi]: mostly uniform, sometimes on a coarse grid (which contains both ends). lo is the simplest
    double real(double lo, double hi)
    {
        const uint64_t mode = draw(8);
        if (mode == 0)
            return lo + (hi - lo) * static_cast<double>(draw(9)) / 8.0;
        return lo + (hi - lo) * unit();
    }
    // real in [-hi, hi] with 0 as the simplest
    double sym(double hi)
    {
        const uint64_t mode = draw(8);
        if (mode == 0)
        {
            const double v = hi * static_cast<double>(draw(5)) / 4.0;
            return draw(2) ? -v : v;
        }
        const double v = hi * unit();
        return draw(2) ? -v : v;
    }
    // log uniform in [lo, hi], lo > 0
    double logreal(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
    // standard normal
    double normal()
    {
        const double u1 = 1.0 - unit();
        const double u2 = unit();
        return std::sqrt(-2.0 * std::log(u1)) * std::cos(2.0 * M_PI * u2);
    }
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }

  private:
    uint64_t _state = 0;
    const std::vector<uint64_t>* _replay = nullptr;
    size_t _pos = 0;
    uint64_t* _rec;
    size_t _cap;
    volatile uint64_t* _count;
};

class Ctx
{
  public:
    bool verbose = false;
    bool isNontrivial = false;
    std::ostringstream out;
    std::set<std::string> labels;

    void nontrivial() { isNontrivial = true; }
    void label(const std::string& l) { labels.insert(l); }
    template<class... A> void note(const A&... a)
    {
        if (verbose)
        {
            ((out << a), ...);
            out << "\n";
        }
    }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Failure {key, msg}; }
    void require(bool precondition) const
    {
        if (not precondition)
            throw Discard {};
    }
};

template<class... A> std::string cat(const A&... a)
{
    std::ostringstream o;
    o.precision(17);
    ((o << a), ...);
    return o.str();
}

#define PBT_CHECK(ctx, key, cond, ...)                                                 \
    do                                                                                 \
    {                                                                                  \
        if (not(cond))                                                                 \
            (ctx).fail((key), ::pbt::cat("check failed: ", #cond, " | ", __VA_ARGS__)); \
    } while (0)

// |a - b| <= atol + rtol * max(|a|, |b|), false for any NaN
inline bool close(double a, double b, double rtol, double atol)
{
    if (a == b)
        return true;
    return std::isfinite(a) and std::isfinite(b) and std::abs(a - b) <= atol + rtol * std::max(std::abs(a), std::abs(b));
}

struct Property
{
    const char* id;
    const char* rule;                                   // what counts as a non trivial case
    std::function<void(Source&)> setup;                 // once per process (batch)
    std::function<void(Source&, Ctx&)> run;             // one case
    double cpuLimitSeconds = 30;                        // CPU time of a case, after which it is a hang
    std::function<std::string()> describeSetup = {};    // printed in the replay output
};

// ---------------------------------------------------------------- engine

struct Options
{
    uint64_t seed = 1;
    uint64_t batches = 64;
    uint64_t cases = 100;
    uint64_t jobs = 8;
    double timeCap = 400;
    std::string scratch = "/tmp";
    std::string result;
    std::string replayIn;
    std::string replayOut;
    std::set<std::string> known;
    bool verboseReplay = false;
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t s = a * 0x9E3779B97F4A7C15ull + b + 0x1234567;
    splitmix(s);
    return splitmix(s);
}

inline void cpu_timer(double seconds)
{
    itimerval t;
    std::memset(&t, 0, sizeof(t));
    t.it_value.tv_sec = static_cast<time_t>(seconds);
    t.it_value.tv_usec = static_cast<suseconds_t>((seconds - std::floor(seconds)) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
}

inline void copy_str(char* dst, size_t n, const std::string& s)
{
    std::strncpy(dst, s.c_str(), n - 1);
    dst[n - 1] = 0;
}

enum class Outcome
{
    Pass,
    Discarded,
    Fail
};

inline Outcome execute(const Property& p, Source& src, Ctx& ctx, Shared* sh)
{
    // libraries used by the repository (flann) draw from rand(): make each case independent of the others
    srand(1);
    entropy() = 1;
    try
    {
        p.run(src, ctx);
        return Outcome::Pass;
    }
    catch (const Discard&)
    {
        return Outcome::Discarded;
    }
    catch (const Failure& f)
    {
        copy_str(sh->key, sizeof(sh->key), f.key);
        copy_str(sh->msg, sizeof(sh->msg), f.msg);
    }
    catch (const std::exception& e)
    {
        copy_str(sh->key, sizeof(sh->key), std::string("exception"));
        copy_str(sh->msg, sizeof(sh->msg), std::string("unexpected exception: ") + e.what());
    }
    catch (...)
    {
        copy_str(sh->key, sizeof(sh->key), std::string("exception"));
        copy_str(sh->msg, sizeof(sh->msg), "unexpected exception of unknown type");
    }
    return Outcome::Fail;
}

inline std::string json_escape(const std::string& s)
{
    std::string o;
    for (const char c: s)
    {
        switch (c)
        {
            case '"':
                o += "\\\"";
                break;
            case '\\':
                o += "\\\\";
                break;
            case '\n':
                o += "\\n";
                break;
            case '\t':
                o += "\\t";
                break;
            default:
                if (static_cast<unsigned char>(c) < 0x20 or static_cast<unsigned char>(c) >= 0x7f)
                    o += "?";
                else
                    o += c;
        }
    }
    return o;
}

inline void silence(const std::string& path)
{
    if (getenv("PBT_VERBOSE"))
        return;
    const int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    ::close(fd);
    // keep an eventual log file bounded
    rlimit rl {64u << 20, 64u << 20};
    if (path != "/dev/null")
        setrlimit(RLIMIT_FSIZE, &rl);
}

inline void child_common(const std::string& dir)
{
    rlimit core {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    mkdir(dir.c_str(), 0755);
    if (chdir(dir.c_str()) != 0)
        _exit(99);
}

// exit codes of a worker: 10 done, 11 failure found, 12 known failures only, anything else: crashed
inline int run_batch(const Property& p, const Options& o, Shared* sh, uint64_t batch, uint64_t first, const std::string& file)
{
    const uint64_t bseed = mix(mix(o.seed, 77), batch);
    std::map<std::string, uint64_t> labels;
    std::map<std::string, std::pair<uint64_t, std::string>> known;
    std::set<uint64_t> distinct;
    uint64_t evaluations = 0, discards = 0, nontrivialCount = 0;
    std::vector<std::string> samples;

    sh->caseIndex = first;
    sh->caseCount = 0;
    sh->inCase = 1;
    {
        Source s(mix(bseed, 1000003), sh->setup, 4096, &sh->setupCount);
        cpu_timer(p.cpuLimitSeconds);
        if (p.setup)
            p.setup(s);
        cpu_timer(0);
    }
    bool failed = false;
    for (uint64_t c = first; c < o.cases; ++c)
    {
        sh->caseIndex = c;
        sh->inCase = 2;
        Source s(mix(bseed, c), sh->choices, MAX_CHOICES, &sh->caseCount);
        Ctx ctx;
        ctx.verbose = (c < 2 and batch < 6);
        cpu_timer(p.cpuLimitSeconds);
        const Outcome out = execute(p, s, ctx, sh);
        cpu_timer(0);
        if (out == Outcome::Discarded)
        {
            ++discards;
            continue;
        }
        ++evaluations;
        for (const auto& l: ctx.labels)
            ++labels[l];
        if (ctx.isNontrivial)
        {
            ++nontrivialCount;
            uint64_t h = 1469598103934665603ull ^ batch;
            for (uint64_t i = 0; i < sh->caseCount; ++i)
                h = (h ^ sh->choices[i]) * 1099511628211ull;
            distinct.insert(h);
            if (ctx.verbose and samples.size() < 2)
                samples.push_back(ctx.out.str());
        }
        if (out == Outcome::Fail)
        {
            if (o.known.count(sh->key))
            {
                auto& k = known[sh->key];
                if (k.first++ == 0)
                    k.second = sh->msg;
                continue;
            }
            failed = true;
            break;
        }
    }
    sh->inCase = 0;
    std::ofstream f(file);
    f << "{\"evaluations\":" << evaluations << ",\"discards\":" << discards << ",\"nontrivial\":" << nontrivialCount
      << ",\"distinct\":" << distinct.size() << ",\"labels\":{";
    bool sep = false;
    for (const auto& [k, v]: labels)
    {
        f << (sep ? "," : "") << "\"" << json_escape(k) << "\":" << v;
        sep = true;
    }
    f << "},\"known\":{";
    sep = false;
    for (const auto& [k, v]: known)
    {
        f << (sep ? "," : "") << "\"" << json_escape(k) << "\":" << v.first;
        sep = true;
    }
    f << "},\"samples\":[";
    sep = false;
    for (const auto& s: samples)
    {
        f << (sep ? "," : "") << "\"" << json_escape(s.substr(0, 1500)) << "\"";
        sep = true;
    }
    f << "]}";
    f.close();
    return failed ? 11 : 10;
}

struct CaseData
{
    std::vector<uint64_t> setup;
    std::vector<uint64_t> choices;
    // a failure that needs the cases that ran before it in the same process is replayed as a whole batch
    bool isBatch = false;
    uint64_t seed = 0;
    uint64_t batch = 0;
    uint64_t lastCase = 0;
};

struct RunResult
{
    bool failed = false;
    bool discarded = false;
    std::string key;
    std::string msg;
    CaseData used; // the choices that were really consumed
    std::string note;
};

inline std::string crash_key(int status)
{
    if (WIFSIGNALED(status))
    {
        const int s = WTERMSIG(status);
        if (s == SIGPROF)
            return "hang";
        return std::string("crash:signal ") + std::to_string(s);
    }
    return std::string("crash:exit ") + std::to_string(WEXITSTATUS(status));
}

inline RunResult run_one(const Property& p, const Options& o, Shared* sh, const CaseData& c, bool verbose, int slot = 0)
{
    RunResult r;
    sh->key[0] = 0;
    sh->msg[0] = 0;
    sh->setupCount = 0;
    sh->caseCount = 0;
    const std::string dir = o.scratch + "/one" + std::to_string(slot);
    const std::string log = o.scratch + "/one" + std::to_string(slot) + ".log";
    const std::string notef = o.scratch + "/one" + std::to_string(slot) + ".note";
    unlink(notef.c_str());
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        child_common(dir);
        silence(log);
        if (c.isBatch)
        {
            Options b = o;
            b.seed = c.seed;
            b.cases = c.lastCase + 1;
            _exit(run_batch(p, b, sh, c.batch, 0, notef));
        }
        sh->inCase = 1;
        {
            Source s(c.setup, sh->setup, 4096, &sh->setupCount);
            cpu_timer(p.cpuLimitSeconds);
            if (p.setup)
                p.setup(s);
        }
        sh->inCase = 2;
        Source s(c.choices, sh->choices, MAX_CHOICES, &sh->caseCount);
        Ctx ctx;
        ctx.verbose = verbose;
        cpu_timer(p.cpuLimitSeconds);
        const Outcome out = execute(p, s, ctx, sh);
        cpu_timer(0);
        if (verbose)
        {
            std::ofstream f(notef);
            if (p.describeSetup)
                f << p.describeSetup() << "\n";
            f << ctx.out.str();
        }
        _exit(out == Outcome::Fail ? 11 : out == Outcome::Discarded ? 12 : 10);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    r.used.setup.assign(sh->setup, sh->setup + sh->setupCount);
    r.used.choices.assign(sh->choices, sh->choices + sh->caseCount);
    if (WIFEXITED(status) and WEXITSTATUS(status) == 10)
        return r;
    if (WIFEXITED(status) and WEXITSTATUS(status) == 12)
    {
        r.discarded = true;
        return r;
    }
    r.failed = true;
    if (WIFEXITED(status) and WEXITSTATUS(status) == 11)
    {
        r.key = sh->key;
        r.msg = sh->msg;
    }
    else
    {
        r.key = crash_key(status);
        std::ifstream f(log);
        std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (all.size() > 3000)
            all = all.substr(all.size() - 3000);
        r.msg = "the process died (" + r.key + "); end of its output: " + all;
    }
    if (verbose)
    {
        std::ifstream f(notef);
        r.note.assign((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    }
    return r;
}

inline double now_s()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

inline CaseData shrink(const Property& p, const Options& o, Shared* sh, CaseData best, const std::string& key)
{
    const double start = now_s();
    const double budget = 60;
    int attempts = 0;
    auto over = [&]() {
        return now_s() - start > budget or attempts > 1500;
    };
    auto attempt = [&](const CaseData& c) {
        ++attempts;
        const RunResult r = run_one(p, o, sh, c, false);
        if (r.failed and r.key == key)
        {
            // never accept something bigger
            if (r.used.choices.size() <= best.choices.size())
                best = r.used;
            else
                best = c;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress and not over())
    {
        progress = false;
        // delete chunks
        for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1 and not over(); len /= 2)
        {
            for (size_t i = 0; i + len <= best.choices.size() and not over();)
            {
                CaseData c = best;
                c.choices.erase(c.choices.begin() + static_cast<long>(i), c.choices.begin() + static_cast<long>(i + len));
                const size_t before = best.choices.size();
                if (attempt(c) and best.choices.size() < before)
                    progress = true;
                else
                    i += len;
            }
            if (len == 1)
                break;
        }
        // zero out blocks, then single values
        for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1 and not over(); len /= 2)
        {
            for (size_t i = 0; i + len <= best.choices.size() and not over(); i += len)
            {
                CaseData c = best;
                bool any = false;
                for (size_t j = i; j < i + len; ++j)
                {
                    any = any or c.choices[j] != 0;
                    c.choices[j] = 0;
                }
                if (any and attempt(c))
                    progress = true;
            }
            if (len == 1)
                break;
        }
        // binary search towards 0 of each value
        for (size_t i = 0; i < best.choices.size() and not over(); ++i)
        {
            uint64_t lo = 0;
            while (i < best.choices.size() and lo < best.choices[i] and not over())
            {
                const uint64_t hi = best.choices[i];
                const uint64_t mid = lo + (hi - lo) / 2;
                CaseData c = best;
                c.choices[i] = mid;
                if (attempt(c))
                {
                    progress = true;
                    if (i < best.choices.size() and best.choices[i] > mid)
                        break;
                }
                else
                    lo = mid + 1;
                if (hi - lo < 1)
                    break;
            }
        }
    }
    return best;
}

inline void write_replay(const std::string& path, const Property& p, const CaseData& c, const RunResult& r)
{
    std::ofstream f(path);
    f << "property " << p.id << "\n";
    if (c.isBatch)
        f << "batch " << c.seed << " " << c.batch << " " << c.lastCase << "\n";
    f << "setup";
    for (auto v: c.setup)
        f << " " << v;
    f << "\nchoices";
    for (auto v: c.choices)
        f << " " << v;
    f << "\nkey " << r.key << "\n# " << "failure:\n";
    std::istringstream m(r.msg + "\n" + r.note);
    for (std::string l; std::getline(m, l);)
        f << "# " << l << "\n";
}

inline CaseData read_replay(const std::string& path)
{
    CaseData c;
    std::ifstream f(path);
    for (std::string l; std::getline(f, l);)
    {
        std::istringstream s(l);
        std::string w;
        s >> w;
        if (w == "batch")
        {
            c.isBatch = true;
            s >> c.seed >> c.batch >> c.lastCase;
        }
        else if (w == "setup" or w == "choices")
        {
            uint64_t v;
            while (s >> v)
                (w == "setup" ? c.setup : c.choices).push_back(v);
        }
    }
    return c;
}

inline int main_impl(int argc, char** argv, const Property& p)
{
    Options o;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        auto next = [&]() {
            return std::string(argv[++i]);
        };
        if (a == "--seed")
            o.seed = std::stoull(next());
        else if (a == "--batches")
            o.batches = std::stoull(next());
        else if (a == "--cases")
            o.cases = std::stoull(next());
        else if (a == "--jobs")
            o.jobs = std::stoull(next());
        else if (a == "--time-cap")
            o.timeCap = std::stod(next());
        else if (a == "--scratch")
            o.scratch = next();
        else if (a == "--result")
            o.result = next();
        else if (a == "--replay")
            o.replayIn = next();
        else if (a == "--replay-out")
            o.replayOut = next();
        else if (a == "--known")
            o.known.insert(next());
        else if (a == "--rule")
        {
            puts(p.rule);
            return 0;
        }
    }
    auto mapShared = []() {
        return static_cast<Shared*>(
                mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    };

    if (not o.replayIn.empty())
    {
        Shared* sh = mapShared();
        const CaseData c = read_replay(o.replayIn);
        const RunResult r = run_one(p, o, sh, c, true);
        printf("%s\n%s\n%s\n", r.failed ? "FAILED" : r.discarded ? "DISCARDED" : "PASSED", r.key.c_str(), r.msg.c_str());
        if (r.note.empty())
        {
            std::ifstream f(o.scratch + "/one0.note");
            printf("%s\n", std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()).c_str());
        }
        else
            printf("%s\n", r.note.c_str());
        return r.failed ? 1 : 0;
    }

    struct Slot
    {
        pid_t pid = 0;
        Shared* sh = nullptr;
        uint64_t batch = 0;
        uint64_t first = 0;
        std::string file;
    };
    std::vector<Slot> slots(o.jobs);
    for (auto& s: slots)
        s.sh = mapShared();
    const double start = now_s();
    uint64_t nextBatch = 0;
    size_t part = 0;
    std::vector<std::string> parts;
    std::vector<std::pair<uint64_t, uint64_t>> requeue; // batch, first case (after a known crash)
    std::map<std::string, uint64_t> knownCrashes;
    bool stop = false, capped = false;
    size_t running = 0;
    struct Found
    {
        CaseData data;
        std::string key;
        std::string msg;
        uint64_t batch;
        uint64_t caseIndex;
    };
    std::vector<Found> found;
    std::string verdict = "pass";
    std::string failJson;
    std::vector<std::string> unstable;
    bool finished = false;
    while (not finished)
    {
    found.clear();
    stop = capped;
    while (true)
    {
        if (now_s() - start > o.timeCap and not stop)
        {
            stop = true;
            capped = true;
        }
        for (size_t i = 0; i < slots.size() and not stop; ++i)
        {
            Slot& s = slots[i];
            if (s.pid != 0)
                continue;
            if (not requeue.empty())
            {
                s.batch = requeue.back().first;
                s.first = requeue.back().second;
                requeue.pop_back();
            }
            else if (nextBatch < o.batches)
            {
                s.batch = nextBatch++;
                s.first = 0;
            }
            else
                continue;
            s.file = o.scratch + "/part" + std::to_string(part++);
            s.sh->key[0] = 0;
            fflush(nullptr);
            const pid_t pid = fork();
            if (pid == 0)
            {
                child_common(o.scratch + "/w" + std::to_string(i));
                silence("/dev/null");
                _exit(run_batch(p, o, s.sh, s.batch, s.first, s.file));
            }
            s.pid = pid;
            ++running;
        }
        if (running == 0)
            break;
        int status = 0;
        const pid_t pid = waitpid(-1, &status, 0);
        if (pid <= 0)
            break;
        for (auto& s: slots)
        {
            if (s.pid != pid)
                continue;
            s.pid = 0;
            --running;
            const bool clean = WIFEXITED(status) and (WEXITSTATUS(status) == 10 or WEXITSTATUS(status) == 11);
            if (clean)
                parts.push_back(s.file);
            if (WIFEXITED(status) and WEXITSTATUS(status) == 10)
                break;
            Found f;
            f.batch = s.batch;
            f.caseIndex = s.sh->caseIndex;
            f.data.setup.assign(s.sh->setup, s.sh->setup + s.sh->setupCount);
            f.data.choices.assign(s.sh->choices, s.sh->choices + s.sh->caseCount);
            if (clean)
            {
                f.key = s.sh->key;
                f.msg = s.sh->msg;
            }
            else
            {
                f.key = crash_key(status);
                f.msg = "process died";
                if (o.known.count(f.key))
                {
                    ++knownCrashes[f.key];
                    if (s.sh->caseIndex + 1 < o.cases)
                        requeue.emplace_back(s.batch, s.sh->caseIndex + 1);
                    break;
                }
            }
            found.push_back(f);
            stop = true;
            break;
        }
    }

    // confirm, shrink and report
    finished = found.empty() or unstable.size() > 20;
    for (const Found& f: found)
    {
        Shared* sh = slots[0].sh;
        int hits = 0;
        RunResult r;
        for (int i = 0; i < 3; ++i)
        {
            r = run_one(p, o, sh, f.data, false);
            hits += r.failed ? 1 : 0;
        }
        if (hits < 3)
        {
            // it may depend on what ran before in the same process
            CaseData whole;
            whole.isBatch = true;
            whole.seed = o.seed;
            whole.batch = f.batch;
            whole.lastCase = f.caseIndex;
            int batchHits = 0;
            for (int i = 0; i < 3; ++i)
            {
                r = run_one(p, o, sh, whole, false);
                batchHits += r.failed ? 1 : 0;
                if (not r.failed)
                    break;
            }
            if (batchHits == 3)
            {
                write_replay(o.replayOut, p, whole, r);
                verdict = "fail";
                failJson = "{\"key\":\"" + json_escape(r.key) + "\",\"msg\":\"" + json_escape(r.msg.substr(0, 3000)) +
                           "\",\"note\":\"needs the preceding cases of its batch\"}";
                finished = true;
                break;
            }
            if (f.caseIndex + 1 < o.cases)
                requeue.emplace_back(f.batch, f.caseIndex + 1);
            unstable.push_back(f.key + ": " + f.msg.substr(0, 500) + " (failed " + std::to_string(hits) + "/3 replays)");
            continue;
        }
        CaseData small = shrink(p, o, sh, r.used.choices.size() <= f.data.choices.size() ? r.used : f.data, r.key);
        hits = 0;
        for (int i = 0; i < 3; ++i)
        {
            const RunResult q = run_one(p, o, sh, small, true);
            if (q.failed)
            {
                ++hits;
                r = q;
            }
        }
        if (hits < 3)
        {
            small = f.data;
            r = run_one(p, o, sh, small, true);
        }
        write_replay(o.replayOut, p, small, r);
        verdict = "fail";
        failJson = "{\"key\":\"" + json_escape(r.key) + "\",\"msg\":\"" + json_escape(r.msg.substr(0, 3000)) +
                   "\",\"note\":\"" + json_escape(r.note.substr(0, 3000)) + "\"}";
        finished = true;
        break;
    }
    } // while not finished
    std::ofstream res(o.result);
    res << "{\"verdict\":\"" << verdict << "\",\"capped\":" << (capped ? "true" : "false") << ",\"rule\":\""
        << json_escape(p.rule) << "\",\"failure\":" << (failJson.empty() ? "null" : failJson) << ",\"unstable\":[";
    for (size_t i = 0; i < unstable.size(); ++i)
        res << (i ? "," : "") << "\"" << json_escape(unstable[i]) << "\"";
    res << "],\"knownCrashes\":{";
    bool sep = false;
    for (const auto& [k, v]: knownCrashes)
    {
        res << (sep ? "," : "") << "\"" << json_escape(k) << "\":" << v;
        sep = true;
    }
    res << "},\"parts\":[";
    for (size_t i = 0; i < parts.size(); ++i)
    {
        std::ifstream f(parts[i]);
        res << (i ? "," : "")
            << std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    }
    res << "]}";
    return verdict == "fail" ? 1 : 0;
}

} // namespace pbt

#define PBT_MAIN(property)                           \
    int main(int argc, char** argv)                  \
    {                                                \
        return ::pbt::main_impl(argc, argv, property); \
    }
