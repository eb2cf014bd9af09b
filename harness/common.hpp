// Shared runtime for every monitor: case scheduling, deterministic randomness, event counters, violation reports.
// One harness binary = one property. The driver (/verif/check.py) compiles it against /repo's current tree, runs it in
// shards, restarts a shard after a crash (the crash itself is a violation) and turns the reports into a verdict.
#ifndef VF_COMMON_HPP
#define VF_COMMON_HPP

#include <bits/stdc++.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf {

    inline uint64_t mix(uint64_t z) {
        z += 0x9e3779b97f4a7c15ULL;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }

    inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
        auto b = (const unsigned char *) p;
        for (size_t i = 0; i < n; i++) {
            h ^= b[i];
            h *= 1099511628211ULL;
        }
        return h;
    }

    inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ULL) {
        return hashBytes(s.data(), s.size(), h);
    }

    struct Rng {
        uint64_t s;

        explicit Rng(uint64_t seed = 0) : s(mix(seed)) {}

        uint64_t next() { return mix(s++ * 0x2545F4914F6CDD1DULL + 0x1234567); }

        // inclusive range
        long long range(long long lo, long long hi) {
            return lo + (long long) (next() % (uint64_t) (hi - lo + 1));
        }

        bool chance(double p) { return unit() < p; }

        double unit() { return (double) (next() >> 11) / 9007199254740992.0; }

        double real(double lo, double hi) { return lo + (hi - lo) * unit(); }

        template<class T>
        const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }

        template<class T>
        void shuffle(std::vector<T> &v) {
            for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]);
        }
    };

    inline std::string jsonEscape(const std::string &s) {
        std::string r;
        for (unsigned char c: s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += (char) c;
            } else if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            } else r += (char) c;
        }
        return r;
    }

    struct State {
        uint64_t seed = 1;
        bool thorough = false;
        int shard = 0, shards = 1;
        long long start = 0;
        std::string only_section;
        long long only_case = -1;
        int report = -1;
        char *cur = nullptr; // shared with the driver through a file
        std::map<std::string, long long> counters, counters_flushed;
        std::map<std::string, long long> required;
        std::map<std::string, int> viol_count;
        std::set<uint64_t> hashes;
        std::vector<std::string> samples;
        long long evals = 0;
        std::string rule;
        std::string section;
        long long index = 0;
        bool big = false;  // this case uses large sizes
        bool huge = false; // one of them may be very large
        long long big_every = 24;
        Rng rng;
    };

    inline State &st() {
        static State s;
        return s;
    }

    inline void emit(const std::string &line) {
        std::string l = line + "\n";
        size_t off = 0;
        while (off < l.size()) {
            ssize_t n = write(st().report, l.data() + off, l.size() - off);
            if (n <= 0) _exit(91);
            off += (size_t) n;
        }
    }

    inline Rng &rng() { return st().rng; }

    inline bool thorough() { return st().thorough; }

    inline void count(const std::string &name, long long n = 1) { st().counters[name] += n; }

    inline bool big() { return st().big; }

    // one case in how many uses large sizes
    inline void bigEvery(long long n) { st().big_every = n; }

    // A size: lo..hi in an ordinary case, up to bighi in a large one (and, once in some large cases, far beyond 256).
    inline long long side(long long lo, long long hi, long long bighi) {
        auto &s = st();
        if (!s.big) return s.rng.range(lo, hi);
        count("large_sizes");
        if (s.huge && bighi >= 30 && s.rng.chance(0.4)) {
            s.huge = false;
            count("very_large_sizes");
            return s.rng.range(257, 257 + 2 * bighi);
        }
        return s.rng.chance(0.35) ? s.rng.range(lo, hi) : s.rng.range(hi + 1, bighi);
    }

    inline void require(const std::string &name, long long n = 1) { st().required[name] = n; }

    inline void rule(const std::string &r) { st().rule = r; }

    inline void nontrivial(uint64_t h) { st().hashes.insert(mix(h ^ hashStr(st().section))); }

    inline void nontrivial(const std::string &s) { nontrivial(hashStr(s)); }

    inline void sample(const std::string &s) {
        auto &v = st().samples;
        std::string pre = st().section + ":" + std::to_string(st().index) + " ";
        int same = 0;
        for (auto &x: v) if (x.rfind(st().section + ":", 0) == 0) same++;
        if (same < 1 && v.size() < 12) v.push_back(pre + s.substr(0, 400));
    }

    inline void writeCur(const std::string &probe) {
        if (!st().cur) return;
        snprintf(st().cur, 4096, "%s\n%lld\n%s\n", st().section.c_str(), st().index, probe.c_str());
    }

    // names what is about to be run, so that a crash in it gets its own key
    inline void probe(const std::string &name) { writeCur(name); }

    inline void fail(const std::string &key, const std::string &detail) {
        int &n = st().viol_count[key];
        n++;
        count("violations_observed");
        if (n > 5) return;
        emit("{\"t\":\"viol\",\"key\":\"" + jsonEscape(key) + "\",\"section\":\"" + jsonEscape(st().section) +
             "\",\"i\":" + std::to_string(st().index) + ",\"detail\":\"" + jsonEscape(detail.substr(0, 3000)) + "\"}");
    }

    inline bool check(bool ok, const std::string &key, const std::string &detail) {
        count("oracle_checks");
        if (!ok) fail(key, detail);
        return ok;
    }

    // relative+absolute tolerance; both NaN is equal, infinities must match
    inline bool near(double a, double b, double rtol = 1e-4, double atol = 1e-5) {
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        if (std::isinf(a) || std::isinf(b)) return a == b;
        return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
    }

    struct Section {
        std::string name;
        long long quick, thorough;
        std::function<void()> fn;
    };

    inline std::vector<Section> &sections() {
        static std::vector<Section> s;
        return s;
    }

    inline void section(const std::string &name, long long quick, long long thorough, std::function<void()> fn) {
        sections().push_back({name, quick, thorough, std::move(fn)});
    }

    inline void flush(bool done) {
        auto &s = st();
        std::string o = "{\"t\":\"stats\",\"done\":" + std::string(done ? "true" : "false") + ",\"evals\":" +
                        std::to_string(s.evals) + ",\"rule\":\"" + jsonEscape(s.rule) + "\",\"counters\":{";
        bool first = true;
        for (auto &c: s.counters) {
            o += std::string(first ? "" : ",") + "\"" + jsonEscape(c.first) + "\":" + std::to_string(c.second);
            first = false;
        }
        o += "},\"required\":{";
        first = true;
        for (auto &c: s.required) {
            o += std::string(first ? "" : ",") + "\"" + jsonEscape(c.first) + "\":" + std::to_string(c.second);
            first = false;
        }
        o += "},\"hashes\":[";
        first = true;
        for (auto h: s.hashes) {
            o += std::string(first ? "" : ",") + "\"" + std::to_string(h) + "\"";
            first = false;
        }
        o += "],\"samples\":[";
        first = true;
        for (auto &x: s.samples) {
            o += std::string(first ? "" : ",") + "\"" + jsonEscape(x) + "\"";
            first = false;
        }
        o += "]}";
        emit(o);
        s.evals = 0;
        s.counters.clear();
        s.hashes.clear();
        s.samples.clear();
    }

    inline std::string env(const char *n, const char *d) {
        auto v = getenv(n);
        return v ? v : d;
    }

    struct Isolated {
        bool exited = false;    // normal exit, code 0 and an answer
        bool timed_out = false;
        int signal = 0, code = 0;
        std::string out;        // what fn returned
        std::string err;        // stderr of the child
        bool ok() const { return exited && code == 0; }

        std::string describe() const {
            if (timed_out) return "timed out";
            std::string s = signal ? "signal " + std::to_string(signal) : "exit " + std::to_string(code);
            auto p = err.find("SUMMARY:");
            if (p == std::string::npos) p = err.find("runtime error:");
            if (p == std::string::npos) p = err.find("what():");
            if (p == std::string::npos) p = err.find("ssertion");
            if (p != std::string::npos) s += " " + err.substr(p, 300);
            return s;
        }
    };

    // Runs fn in a forked child: a crash, a sanitizer report, an exit() or a hang is an observation, not the end.
    inline Isolated isolated(const std::function<std::string()> &fn, int timeout_s = 60,
                             const std::string &stdin_text = std::string(), bool capture_stdout = false) {
        Isolated r;
        char base[] = "isoXXXXXX";
        int tmp = mkstemp(base);
        if (tmp < 0) _exit(92);
        unlink(base);
        char base2[] = "isoXXXXXX";
        int errf = mkstemp(base2);
        unlink(base2);
        char base3[] = "isoXXXXXX";
        int inf = mkstemp(base3);
        unlink(base3);
        if (write(inf, stdin_text.data(), stdin_text.size()) != (ssize_t) stdin_text.size()) _exit(92);
        lseek(inf, 0, SEEK_SET);
        fflush(nullptr);
        std::cout.flush();
        pid_t pid = fork();
        if (pid < 0) _exit(93);
        if (pid == 0) {
            dup2(errf, 2);
            dup2(inf, 0);
            if (capture_stdout) dup2(tmp, 1);
            std::string s;
            s = fn();
            if (!capture_stdout) {
                size_t off = 0;
                while (off < s.size()) {
                    ssize_t n = write(tmp, s.data() + off, s.size() - off);
                    if (n <= 0) _exit(94);
                    off += (size_t) n;
                }
            } else {
                std::cout.flush();
                fflush(nullptr);
            }
            _exit(0);
        }
        int status = 0;
        long waited = 0;
        bool reaped = false;
        useconds_t step = 200;
        while (waited < (long) timeout_s * 1000000L) {
            pid_t w = waitpid(pid, &status, WNOHANG);
            if (w == pid) {
                reaped = true;
                break;
            }
            usleep(step);
            waited += step;
            if (step < 20000) step = step * 2;
        }
        if (!reaped) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            r.timed_out = true;
        }
        if (WIFEXITED(status)) {
            r.code = WEXITSTATUS(status);
            r.exited = !r.timed_out;
        } else if (WIFSIGNALED(status)) r.signal = WTERMSIG(status);
        auto slurp = [](int fd) {
            std::string s;
            lseek(fd, 0, SEEK_SET);
            char b[65536];
            ssize_t n;
            while ((n = read(fd, b, sizeof b)) > 0) {
                s.append(b, (size_t) n);
                if (s.size() > (8u << 20)) break;
            }
            ::close(fd);
            return s;
        };
        r.out = slurp(tmp);
        r.err = slurp(errf);
        ::close(inf);
        count("isolated_runs");
        return r;
    }

    inline std::string readFile(const std::string &p) {
        std::ifstream f(p, std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        return ss.str();
    }

    inline void writeFile(const std::string &p, const std::string &d) {
        std::ofstream f(p, std::ios::binary);
        f << d;
    }

    inline bool exists(const std::string &p) { return std::filesystem::exists(p); }

    // a fresh directory below the (scratch) current directory
    inline std::string freshDir(const std::string &name = "d") {
        std::string p = std::filesystem::current_path().string() + "/" + name;
        std::filesystem::remove_all(p);
        std::filesystem::create_directories(p);
        return p;
    }

    inline int main() {
        auto &s = st();
        s.seed = strtoull(env("VERIF_SEED", "1").c_str(), nullptr, 10);
        s.thorough = env("VERIF_TIER", "quick") == "thorough";
        s.shard = atoi(env("VF_SHARD", "0").c_str());
        s.shards = atoi(env("VF_SHARDS", "1").c_str());
        s.start = atoll(env("VF_START", "0").c_str());
        std::string only = env("VF_ONLY", "");
        if (!only.empty()) {
            auto p = only.rfind(':');
            s.only_section = only.substr(0, p);
            s.only_case = atoll(only.c_str() + p + 1);
        }
        s.report = open(env("VF_REPORT", "/dev/stderr").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
        std::string curf = env("VF_CUR", "");
        if (!curf.empty()) {
            int fd = open(curf.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd < 0 || ftruncate(fd, 4096) != 0) return 95;
            s.cur = (char *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            ::close(fd);
        }
        double scale = atof(env("VF_SCALE", "1").c_str());
        long long ordinal = 0;
        for (auto &sec: sections()) {
            long long n = s.thorough ? sec.thorough : sec.quick;
            if (n > 8) n = std::max<long long>(8, (long long) ((double) n * scale));
            for (long long i = 0; i < n; i++, ordinal++) {
                if (!s.only_section.empty() && (sec.name != s.only_section || i != s.only_case)) continue;
                if (s.only_section.empty() && (ordinal % s.shards != s.shard || ordinal < s.start)) continue;
                s.section = sec.name;
                s.index = i;
                uint64_t pick = mix(s.seed * 7919ULL + 3) ^ hashStr(sec.name + "#size") ^ mix((uint64_t) i * 31 + 7);
                s.big = mix(pick) % (uint64_t) s.big_every == 0;
                s.huge = s.big && mix(pick + 1) % 3 == 0;
                s.rng = Rng(mix(s.seed * 1000003ULL + 17) ^ hashStr(sec.name) ^ mix((uint64_t) i));
                if (s.cur) snprintf(s.cur + 2048, 64, "%lld", ordinal);
                writeCur("");
                s.evals++;
                if (s.big) count("large_cases");
                count("cases:" + sec.name);
                try {
                    sec.fn();
                } catch (const std::exception &e) {
                    fail("exception:" + sec.name, std::string("uncaught exception: ") + e.what());
                } catch (const char *e) {
                    fail("exception:" + sec.name, std::string("uncaught exception: ") + e);
                } catch (const std::string &e) {
                    fail("exception:" + sec.name, std::string("uncaught exception: ") + e);
                } catch (...) {
                    fail("exception:" + sec.name, "uncaught exception of unknown type");
                }
                if (s.evals % 200 == 0) flush(false);
            }
        }
        flush(true);
        return 0;
    }
}

#endif
