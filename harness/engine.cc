#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

// ---------------------------------------------------------------------------------------------------- data source

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

void D::seed(uint64_t s) {
    for (auto& r : rng_) r = splitmix(s);
}

static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

static uint64_t next_rng(uint64_t* s) {
    const uint64_t result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return result;
}

uint32_t D::below(uint32_t n) {
    uint32_t v = 0;
    if (n == 0) n = 1;
    switch (mode_) {
        case RANDOM: v = (uint32_t) (((next_rng(rng_) >> 32) * (uint64_t) n) >> 32); break;
        case REPLAY: v = in_pos_ < in_len_ ? in_[in_pos_++] : 0; v = v % n; break;
        case BYTES: {
            int width = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
            for (int i = 0; i < width; i++) v = v << 8 | (in_pos_ < in_len_ ? bytes_[in_pos_++] : 0);
            v %= n;
        }
    }
    if (rec_) {
        if (*rec_len_ < rec_cap_) rec_[*rec_len_] = v;
        *rec_len_ = *rec_len_ + 1;
    }
    hash_ = (hash_ ^ v) * 1099511628211ULL;
    return v;
}

int D::range(int lo, int hi) { return (int) (lo + (int64_t) below((uint32_t) ((int64_t) hi - lo + 1))); }

bool D::chance(int num, int den) { return below((uint32_t) den) >= (uint32_t) (den - num); }

int D::size(int max) {
    if (max <= 0) return 0;
    int bits = 0;
    while ((1LL << bits) <= max) bits++;
    int b = range(0, bits);          // value has b bits
    if (b == 0) return 0;
    int lo = 1 << (b - 1), hi = (int) std::min<int64_t>((1LL << b) - 1, max);
    return range(lo, hi);
}

double D::unit() { return below(1u << 30) / (double) (1u << 30); }

int D::weighted(const std::vector<int>& w) {
    int total = 0;
    for (int x : w) total += x;
    int v = (int) below((uint32_t) total);
    for (size_t i = 0; i < w.size(); i++) {
        if (v < w[i]) return (int) i;
        v -= w[i];
    }
    return 0;
}

void D::label(const char* name) {
    for (auto l : labels_)
        if (!strcmp(l, name)) return;
    labels_.push_back(name);
}

void D::note(const std::string& text) {
    if (!verbose_ || notes_.size() > 20000) return;
    notes_ += text.size() > 2000 ? text.substr(0, 2000) + " ..." : text;
    notes_ += "\n";
    if (notes_out_) {
        size_t n = notes_.size() < notes_cap_ - 1 ? notes_.size() : notes_cap_ - 1;
        memcpy(notes_out_, notes_.data(), n);
        notes_out_[n] = 0;
    }
}

static std::string g_tmp;

std::string D::tmpfile(const char* name) {
    std::string dir = g_tmp + "/" + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    return dir + "/" + name;
}

void fail(const std::string& msg) { throw Failure{msg}; }

std::vector<Prop>& props() {
    static std::vector<Prop> p;
    return p;
}

// --------------------------------------------------------------------------------------------------------- runner

static const uint32_t kCap = 1 << 21;
static const long kHashes = 1 << 20;

struct Shm {
    volatile uint32_t len;
    volatile int sub;
    volatile long idx;
    volatile long done;
    char msg[8192];
    char notes[32768];
    uint32_t rec[kCap];
    // what a worker has done so far; it survives the end of the worker, whatever ends it
    volatile long evals[16], nontriv[16], sample[16];   // sample: a non-trivial case + 1
    volatile double slowest[16];                        // CPU seconds of a case
    volatile long hashes_len;
    uint64_t hashes[kHashes];
};

static Shm* new_shm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return (Shm*) p;
}

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static void cpu_limit(int seconds) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

// checks which have to count to millions take longer
static int patience(const Prop& p) {
    return p.sub.compare(0, 5, "slow_") == 0 ? 5 : 1;
}

static double cpu_now() {
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void put(char* dst, size_t cap, const std::string& s) {
    size_t n = std::min(cap - 1, s.size());
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

static uint64_t case_seed(uint64_t seed, const Prop& p, long idx) {
    uint64_t h = seed * 0x9e3779b97f4a7c15ULL + 12345;
    for (char c : p.id + "/" + p.sub) h = (h ^ (unsigned char) c) * 1099511628211ULL;
    h ^= (uint64_t) idx * 0xd1342543de82ef95ULL;
    return splitmix(h);
}

// runs one case in this process; returns false and fills shm->msg when it fails
static bool run_one(const Prop& p, D& d, Shm* shm) {
    std::string msg;
    bool ok = false;
    try {
        p.fn(d);
        ok = true;
    } catch (const Failure& f) {
        msg = f.msg;
    } catch (const std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        msg = "unexpected exception";
    }
    if (shm) {
        if (!ok) put(shm->msg, sizeof shm->msg, msg);
    }
    return ok;
}

static void init_d(D& d, Shm* shm) {
    shm->len = 0;
    d.rec_ = shm->rec;
    d.rec_cap_ = kCap;
    d.rec_len_ = &shm->len;
}

static void rm_tmp(pid_t pid) {
    std::string dir = g_tmp + "/" + std::to_string(pid);
    DIR* e = opendir(dir.c_str());
    if (!e) return;
    while (struct dirent* f = readdir(e))
        if (f->d_name[0] != '.') unlink((dir + "/" + f->d_name).c_str());
    closedir(e);
    rmdir(dir.c_str());
}

struct Result {
    int kind;  // 0 pass, 1 oracle failure, 2 crash, 3 cpu limit
    std::string msg, notes;
    std::vector<uint32_t> choices;
    bool nontrivial;
};

// runs a case in a child process
// a machine which is short of something gives it a moment later
static pid_t fork_patiently() {
    for (int tries = 0; tries < 300; tries++) {
        pid_t pid = fork();
        if (pid >= 0) return pid;
        usleep(100000);
    }
    fprintf(stderr, "cannot fork\n");
    _exit(2);
}

static Result run_child(const Prop& p, const std::function<void(D&)>& setup, int cpu, bool verbose, bool show_stderr) {
    static Shm* shm = new_shm();
    shm->msg[0] = shm->notes[0] = 0;
    shm->done = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork_patiently();
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        if (!show_stderr) dup2(verbose ? open((g_tmp + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600) : nul, 2);
        D d;
        init_d(d, shm);
        d.verbose_ = verbose;
        d.notes_out_ = shm->notes;
        d.notes_cap_ = sizeof shm->notes;
        setup(d);
        cpu_limit(cpu);
        bool ok = run_one(p, d, shm);
        shm->done = d.nontrivial_ ? 2 : 1;
        _exit(ok ? 0 : 42);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    rm_tmp(pid);
    Result r;
    r.kind = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : WIFEXITED(st) && WEXITSTATUS(st) == 42 ? 1
           : WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF ? 3 : 2;
    r.msg = shm->msg;
    r.notes = shm->notes;
    r.nontrivial = shm->done == 2;
    if (r.kind == 2) r.msg = "crash: " + (WIFSIGNALED(st) ? std::string("signal ") + strsignal(WTERMSIG(st))
                                                         : "sanitizer report, exit status " + std::to_string(WEXITSTATUS(st)));
    if (r.kind == 2 && verbose && !show_stderr) {
        std::ifstream f(g_tmp + "/stderr");
        for (std::string line; std::getline(f, line);)
            if (line.find("ERROR: ") != std::string::npos || line.find("runtime error: ") != std::string::npos ||
                line.find("Assertion") != std::string::npos) { r.msg += "; " + line; break; }
    }
    if (verbose) unlink((g_tmp + "/stderr").c_str());
    if (r.kind == 3) r.msg = "does not terminate: no result after " + std::to_string(cpu) + " s of CPU time";
    uint32_t n = shm->len;
    if (n > kCap) n = kCap;
    r.choices.assign(shm->rec, shm->rec + n);
    return r;
}

static Result replay(const Prop& p, const std::vector<uint32_t>& c, int cpu, bool verbose = false, bool err = false) {
    return run_child(p, [&](D& d) {
        d.mode_ = D::REPLAY;
        d.in_ = c.data();
        d.in_len_ = c.size();
    }, cpu, verbose, err);
}

static std::vector<uint32_t> shrink(const Prop& p, std::vector<uint32_t> best, int kind, double budget) {
    double end = now() + budget;
    int cpu = (kind == 3 ? 50 : 40) * patience(p);
    auto attempt = [&](const std::vector<uint32_t>& c) {
        if (now() > end) return false;
        Result r = replay(p, c, cpu);
        if (r.kind != kind) return false;
        // the choices which the case really used; never longer than what was tried
        best = r.choices.size() < c.size() ? r.choices : c;
        return true;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        // shorter prefixes
        for (size_t cut = best.size() / 2; cut >= 1 && now() < end;) {
            if (best.size() > cut && attempt(std::vector<uint32_t>(best.begin(), best.end() - cut))) progress = true;
            else cut /= 2;
        }
        // deleting blocks
        for (size_t block = std::max<size_t>(1, best.size() / 4); block >= 1 && now() < end; block = block / 2) {
            for (size_t i = best.size(); i >= block && now() < end;) {
                size_t at = i - block;
                std::vector<uint32_t> c(best.begin(), best.begin() + at);
                c.insert(c.end(), best.begin() + std::min(best.size(), at + block), best.end());
                if (attempt(c)) { progress = true; i = std::min(at, best.size()); }
                else i = i > block ? i - block : 0;
            }
        }
        // zeroing blocks
        for (size_t block = std::max<size_t>(1, best.size() / 4); block >= 1 && now() < end; block = block / 2) {
            for (size_t at = 0; at < best.size() && now() < end; at += block) {
                std::vector<uint32_t> c = best;
                bool any = false;
                for (size_t i = at; i < std::min(best.size(), at + block); i++) { any |= c[i] != 0; c[i] = 0; }
                if (any && attempt(c)) progress = true;
            }
        }
        // minimising single choices
        for (size_t i = 0; i < best.size() && now() < end; i++) {
            for (uint32_t step = i < best.size() ? best[i] : 0; step >= 1 && i < best.size() && now() < end; step /= 2) {
                while (i < best.size() && best[i] >= step) {
                    std::vector<uint32_t> c = best;
                    c[i] -= step;
                    if (attempt(c)) progress = true;
                    else break;
                }
            }
        }
    }
    return best;
}

static std::string esc(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

struct Opts {
    std::string prop, tier = "quick", out, replays = ".", replay_file, bytes_file, bytes_sub;
    uint64_t seed = 1;
    int shards = 8;
    double wall = 600;
    double scale = 1, shrink = -1;
};

// The cases first, first + step, ..., last of a check, one after another in one process; the last one decides.  This is
// how a failure is replayed which needs state that earlier cases left behind in the process.
static Result replay_history(const Prop& p, uint64_t seed, long first, long step, long last, bool verbose = false,
                             bool err = false) {
    return run_child(p, [&](D& d) {
        for (long i = first; i < last; i += step) {
            D e;
            e.seed(case_seed(seed, p, i));
            run_one(p, e, nullptr);
        }
        d.seed(case_seed(seed, p, last));
    }, 120, verbose, err);
}

static std::string report_history(const Opts& o, const Prop& p, long idx, std::string& text) {
    for (long k = 1; k <= 512; k *= 2) {
        long first = std::max(idx % o.shards, idx - k * o.shards);
        if (replay_history(p, o.seed, first, o.shards, idx).kind == 0) {
            if (first == idx % o.shards) break;
            continue;
        }
        Result last;
        int fails = 0;
        for (int i = 0; i < 3; i++) {
            last = replay_history(p, o.seed, first, o.shards, idx, true);
            if (last.kind) fails++;
        }
        if (fails < 3) return "";
        std::string path = o.replays + "/" + p.id + "-" + p.sub + "-history-" + std::to_string(idx) + ".replay";
        std::ofstream f(path);
        f << "property " << p.id << "\ncheck " << p.sub << "\nhistory " << o.seed << ' ' << first << ' ' << o.shards << ' '
          << idx << "\n# the failure needs the cases before it in the same process\n# " << last.msg << "\n";
        std::istringstream in(last.notes);
        for (std::string line; std::getline(in, line);) f << "# " << line << "\n";
        text = last.msg + "\n" + last.notes;
        return path;
    }
    return "";
}

// writes the minimal reproduction; returns its path, or "" when the failure does not reproduce
static std::string report(const Opts& o, const Prop& p, const std::vector<uint32_t>& choices, int first_kind,
                          double shrink_budget, std::string& text) {
    int cpu = (first_kind == 3 ? 90 : 60) * patience(p);
    Result r = replay(p, choices, cpu);
    if (r.kind == 0) return "";
    std::vector<uint32_t> best = shrink(p, choices, r.kind, shrink_budget);
    Result last;
    for (int round = 0; round < 2; round++) {
        int fails = 0, times = first_kind == 3 || patience(p) > 1 ? 1 : 3;
        for (int i = 0; i < times; i++) {
            last = replay(p, best, cpu, true);
            if (last.kind != 0) fails++;
        }
        if (fails == times) break;
        if (round == 1) return "";
        best = choices;  // the shrunk case is not stable: report the original one
    }
    std::ostringstream out;
    uint64_t h = 1469598103934665603ULL;
    for (uint32_t c : best) h = (h ^ c) * 1099511628211ULL;
    char name[64];
    snprintf(name, sizeof name, "%s-%s-%08x.replay", p.id.c_str(), p.sub.c_str(), (unsigned) (h ^ (h >> 32)));
    out << "property " << p.id << "\ncheck " << p.sub << "\nchoices";
    for (uint32_t c : best) out << ' ' << c;
    out << "\n# " << last.msg << "\n";
    std::istringstream in(last.notes);
    for (std::string line; std::getline(in, line);) out << "# " << line << "\n";
    std::string path = o.replays + "/" + name;
    std::ofstream(path) << out.str();
    text = last.msg + "\n" + last.notes;
    return path;
}

static void worker(const Opts& o, const std::vector<Prop>& ps, int shard, Shm* shm, int from_sub, long from_idx,
                   const std::string& stats) {
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    std::map<std::string, long> labels;
    std::unordered_set<uint64_t> hashes;
    for (size_t s = from_sub; s < ps.size(); s++) {
        long n = (long) ((o.tier == "thorough" ? ps[s].thorough : ps[s].quick) * o.scale);
        if (n < 1) n = 1;
        for (long i = (int) s == from_sub && from_idx >= 0 ? from_idx : shard; i < n; i += o.shards) {
            D d;
            init_d(d, shm);
            d.seed(case_seed(o.seed, ps[s], i));
            shm->sub = (int) s;
            shm->idx = i;
            cpu_limit(40 * patience(ps[s]));
            double began = cpu_now();
            if (!run_one(ps[s], d, shm)) _exit(42);
            shm->slowest[s] = std::max((double) shm->slowest[s], cpu_now() - began);
            if (d.nontrivial_ && !shm->sample[s]) shm->sample[s] = i + 1;
            shm->evals[s] = shm->evals[s] + 1;
            if (d.nontrivial_) {
                shm->nontriv[s] = shm->nontriv[s] + 1;
                uint64_t h = d.hash_ ^ (s * 0x9e3779b97f4a7c15ULL);
                if (hashes.insert(h).second && shm->hashes_len < kHashes) {
                    shm->hashes[shm->hashes_len] = h;
                    shm->hashes_len = shm->hashes_len + 1;
                }
            }
            for (auto l : d.labels_) labels[ps[s].sub + ": " + l]++;
        }
    }
    cpu_limit(0);
    std::ofstream f(stats);
    for (auto& l : labels) f << "L " << l.second << ' ' << l.first << "\n";
    f.close();
    rm_tmp(getpid());
    _exit(0);
}

static std::vector<uint32_t> read_choices(const std::string& path, std::string& id, std::string& sub,
                                          std::vector<uint64_t>& hist) {
    std::ifstream f(path);
    std::vector<uint32_t> c;
    for (std::string line; std::getline(f, line);) {
        std::istringstream in(line);
        std::string key;
        in >> key;
        if (key == "property") in >> id;
        if (key == "check") in >> sub;
        if (key == "choices")
            for (uint32_t v; in >> v;) c.push_back(v);
        if (key == "history")
            for (uint64_t v; in >> v;) hist.push_back(v);
    }
    return c;
}

static int main_(int argc, char** argv) {
    Opts o;
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") o.prop = val();
        else if (a == "--tier") o.tier = val();
        else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--shards") o.shards = atoi(val().c_str());
        else if (a == "--out") o.out = val();
        else if (a == "--replays") o.replays = val();
        else if (a == "--replay") o.replay_file = val();
        else if (a == "--bytes") o.bytes_file = val();
        else if (a == "--sub") o.bytes_sub = val();
        else if (a == "--shrink") o.shrink = atof(val().c_str());
        else if (a == "--wall") o.wall = atof(val().c_str());
        else if (a == "--scale") o.scale = atof(val().c_str());
        else if (a == "--list") list = true;
    }
    char tmpl[] = "/tmp/vgram-pbt-XXXXXX";
    g_tmp = mkdtemp(tmpl);
    struct Cleanup { ~Cleanup() { rmdir(g_tmp.c_str()); } } cleanup;

    if (list) {
        for (auto& p : props()) printf("%s %s %ld %ld\n", p.id.c_str(), p.sub.c_str(), p.quick, p.thorough);
        return 0;
    }
    if (!o.replay_file.empty()) {
        std::string id, sub;
        std::vector<uint64_t> hist;
        std::vector<uint32_t> c = read_choices(o.replay_file, id, sub, hist);
        for (auto& p : props())
            if (p.id == id && p.sub == sub) {
                Result r = hist.size() == 4 ? replay_history(p, hist[0], hist[1], hist[2], hist[3], true, true)
                                           : replay(p, c, 60, true, true);
                printf("%s%s\n", r.notes.c_str(), r.kind ? ("FAILS: " + r.msg).c_str() : "passes");
                return r.kind ? 1 : 0;
            }
        printf("no such check: %s %s\n", id.c_str(), sub.c_str());
        return 2;
    }
    if (!o.bytes_file.empty()) {  // an artifact of the coverage-guided fuzzer
        std::ifstream f(o.bytes_file, std::ios::binary);
        std::string b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        for (auto& p : props())
            if (p.id == o.prop && p.sub == o.bytes_sub) {
                Result r = run_child(p, [&](D& d) {
                    d.mode_ = D::BYTES;
                    d.bytes_ = (const uint8_t*) b.data();
                    d.in_len_ = b.size();
                }, 60, false, false);
                if (r.kind == 0) return 0;
                std::string text, path = report(o, p, r.choices, r.kind, 60, text);
                if (path.empty()) return 0;
                printf("FOUND %s\n%s\n", path.c_str(), text.c_str());
                return 1;
            }
        return 2;
    }

    std::vector<Prop> ps;
    for (auto& p : props())
        if (p.id == o.prop && (o.bytes_sub.empty() || p.sub == o.bytes_sub)) ps.push_back(p);
    if (ps.size() > 16) { fprintf(stderr, "too many checks\n"); return 2; }
    if (ps.empty()) { fprintf(stderr, "no such property: %s\n", o.prop.c_str()); return 2; }

    double start = now();
    struct W { pid_t pid; Shm* shm; int from_sub; long from_idx; std::string stats; int restarts; };
    std::vector<W> ws;
    std::vector<std::string> all_stats;
    auto launch = [&](W& w, int shard) {
        w.stats = g_tmp + "/stats." + std::to_string(shard) + "." + std::to_string(w.restarts);
        all_stats.push_back(w.stats);
        fflush(stdout);
        fflush(stderr);
        w.pid = fork_patiently();
        if (w.pid == 0) {
            if (!getenv("PBT_VERBOSE")) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); }
            worker(o, ps, shard, w.shm, w.from_sub, w.from_idx, w.stats);
        }
    };
    for (int s = 0; s < o.shards; s++) {
        ws.push_back(W{0, new_shm(), 0, -1, "", 0});
        launch(ws.back(), s);
    }
    int running = o.shards;
    long unreproduced = 0;
    bool timed_out = false;
    std::string violation, vtext, vsub;
    long vcase = -1;
    while (running > 0) {
        int st = 0;
        pid_t pid = waitpid(-1, &st, WNOHANG);
        if (pid == 0) {
            usleep(20000);
            if (now() - start > o.wall) {
                timed_out = true;
                for (auto& w : ws) if (w.pid) { kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); rm_tmp(w.pid); w.pid = 0; }
                break;
            }
            continue;
        }
        if (pid < 0) break;
        int shard = -1;
        for (size_t s = 0; s < ws.size(); s++) if (ws[s].pid == pid) shard = (int) s;
        if (shard < 0) continue;
        W& w = ws[shard];
        w.pid = 0;
        rm_tmp(pid);
        running--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        const Prop& p = ps[w.shm->sub];
        long idx = w.shm->idx;
        int kind = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF ? 3 : WIFEXITED(st) && WEXITSTATUS(st) == 42 ? 1 : 2;
        std::vector<uint32_t> c;
        if (w.shm->len <= kCap) {
            Result r = run_child(p, [&](D& d) { d.seed(case_seed(o.seed, p, idx)); }, kind == 3 ? 90 : 60, false, false);
            if (r.kind) c = r.choices;
        }
        std::string path;
        {
            // stop the others while the failure is examined: one violation is enough
            for (auto& x : ws) if (x.pid) kill(x.pid, SIGSTOP);
            path = report(o, p, c, kind, o.shrink >= 0 ? o.shrink : o.tier == "thorough" ? 120 : 45, vtext);
            if (path.empty() && kind != 3 && unreproduced < 3) path = report_history(o, p, idx, vtext);
            for (auto& x : ws) if (x.pid) kill(x.pid, SIGCONT);
        }
        if (!path.empty()) {
            violation = path;
            vsub = p.sub;
            vcase = idx;
            for (auto& x : ws) if (x.pid) { kill(x.pid, SIGKILL); waitpid(x.pid, &st, 0); rm_tmp(x.pid); x.pid = 0; }
            break;
        }
        unreproduced++;
        if (w.restarts < 20) {  // go on behind the case which did not reproduce
            w.restarts++;
            w.from_sub = w.shm->sub;
            w.from_idx = idx + o.shards;
            launch(w, shard);
            running++;
        }
    }

    // the numbers of this run
    std::map<std::string, long> labels;
    std::vector<long> evals(ps.size(), 0), nontriv(ps.size(), 0);
    std::set<uint64_t> hashes;
    for (auto& path : all_stats) {
        std::ifstream f(path);
        for (std::string k; f >> k;) {
            if (k == "L") { long n; std::string name; f >> n; f.get(); std::getline(f, name); labels[name] += n; }
        }
        unlink(path.c_str());
    }
    for (auto& w : ws) {
        for (size_t s = 0; s < ps.size(); s++) { evals[s] += w.shm->evals[s]; nontriv[s] += w.shm->nontriv[s]; }
        for (long i = 0; i < w.shm->hashes_len; i++) hashes.insert(w.shm->hashes[i]);
    }
    if (vcase >= 0)
        for (size_t s = 0; s < ps.size(); s++) if (ps[s].sub == vsub) evals[s]++;  // the case that failed
    long total = 0;
    for (long e : evals) total += e;
    // samples: a non-trivial case of every check, described by the case itself
    std::vector<std::string> samples;
    if (violation.empty()) {
        for (size_t s = 0; s < ps.size(); s++) {
            const Prop& p = ps[s];
            std::vector<long> known;
            for (auto& w : ws) if (w.shm->sample[s]) known.push_back(w.shm->sample[s] - 1);
            std::sort(known.begin(), known.end());
            for (long i : known) {
                Result r = run_child(p, [&](D& d) { d.seed(case_seed(o.seed, p, i)); }, 40, true, false);
                if (r.kind == 0 && r.nontrivial && !r.notes.empty()) {
                    samples.push_back(p.sub + " case " + std::to_string(i) + ": " + r.notes.substr(0, 1200));
                    break;
                }
            }
        }
    } else {
        samples.push_back(vsub + " case " + std::to_string(vcase) + ": " + vtext.substr(0, 3000));
    }
    auto slowest = [&](size_t s) { double m = 0; for (auto& w : ws) m = std::max(m, (double) w.shm->slowest[s]); return std::round(m * 100) / 100; };
    std::ostringstream js;
    js << "{\"evaluations\": " << total << ", \"distinct_nontrivial\": " << hashes.size()
       << ", \"unreproduced\": " << unreproduced << ", \"wall_limit_hit\": " << (timed_out ? "true" : "false")
       << ", \"checks\": {";
    for (size_t s = 0; s < ps.size(); s++)
        js << (s ? ", " : "") << esc(ps[s].sub) << ": {\"cases\": " << evals[s] << ", \"nontrivial\": " << nontriv[s] << ", \"slowest_cpu_s\": " << slowest(s) << "}";
    js << "}, \"labels\": {";
    bool first = true;
    for (auto& l : labels) { js << (first ? "" : ", ") << esc(l.first) << ": " << l.second; first = false; }
    js << "}, \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) js << (i ? ", " : "") << esc(samples[i]);
    js << "], \"violation\": " << (violation.empty() ? "null" : esc(violation)) << ", \"message\": "
       << esc(vtext.substr(0, 4000)) << "}\n";
    if (!o.out.empty()) std::ofstream(o.out) << js.str();
    else printf("%s", js.str().c_str());
    return violation.empty() ? 0 : 1;
}

}  // namespace pbt

#ifdef PBT_FUZZ
// coverage-guided mode: the bytes are decoded into choices, the oracle runs inside the target
static const pbt::Prop* target() {
    static const pbt::Prop* p = [] {
        const char *id = getenv("PBT_PROP"), *sub = getenv("PBT_SUB");
        for (auto& q : pbt::props())
            if (id && sub && q.id == id && q.sub == sub) return (const pbt::Prop*) &q;
        fprintf(stderr, "PBT_PROP and PBT_SUB do not name a check\n");
        _exit(2);
        return (const pbt::Prop*) nullptr;
    }();
    return p;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (pbt::g_tmp.empty()) {
        const char* t = getenv("PBT_TMP");
        pbt::g_tmp = t ? t : "/tmp";
    }
    const pbt::Prop* p = target();
    pbt::D d;
    d.mode_ = pbt::D::BYTES;
    d.bytes_ = data;
    d.in_len_ = size;
    std::string msg;
    try {
        p->fn(d);
        return 0;
    } catch (const pbt::Failure& f) {
        msg = f.msg;
    } catch (const std::exception& e) {
        msg = e.what();
    } catch (...) {
        msg = "exception";
    }
    fprintf(stderr, "VIOLATED: %s\n", msg.c_str());
    __builtin_trap();
}
#else
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
