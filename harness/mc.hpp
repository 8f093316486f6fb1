// Stateless exhaustive explorer: depth-first enumeration of every choice sequence of a part.
//
// A *part* is a deterministic function of the answers to x.choose(n). The explorer re-runs it for every
// answer sequence (no sampling, no caps), counting
//   states      - distinct nodes of the choice tree reached (prefixes, including leaves)
//   transitions - operations performed on the implementation and compared with the model (x.op())
//   traces      - complete executions whose every observation agreed with the model
// Executions are named  part:c0.c1.c2...  and can be replayed alone.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include <algorithm>
#include <span>
#include <numeric>
#include <limits>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>

namespace mc {

struct Fail { std::string msg; };
struct Skip {};
struct Prune {};   // the remaining choices of this prefix are outside the stated bound

struct Shared {             // mmap'd so the driver can attribute a crash or a hang
    char part[64];
    uint32_t n;
    uint32_t choices[4096];
};

class X {
public:
    // answer of the environment / generator at this point: 0..n-1
    size_t choose(size_t n) {
        if (n == 0) { std::fprintf(stderr, "choose(0)\n"); std::abort(); }
        if (pos_ < seq_.size()) {
            if (lim_[pos_] == 0) lim_[pos_] = n;              // replay: limit unknown so far
            else if (lim_[pos_] != n) { std::fprintf(stderr, "NONDETERMINISM: arity changed while replaying a prefix\n"); _exit(14); }
            if (seq_[pos_] >= n) { std::fprintf(stderr, "BADREPLAY: choice out of range\n"); _exit(14); }
        } else {
            seq_.push_back(0); lim_.push_back(n); ++fresh_;
            if (sh_ && pos_ < 4096) { sh_->choices[pos_] = 0; sh_->n = uint32_t(pos_ + 1); }
        }
        return seq_[pos_++];
    }
    template<class C> auto& pick(C& c) { return c[choose(c.size())]; }
    bool flip() { return choose(2) != 0; }
    // everything chosen so far forms a unit of work: keep it only if it belongs to this shard
    void go() {
        if (replay_) return;
        // the shard of a prefix is a function of its choices alone; siblings at the last choice rotate through
        // the shards, so the siblings of other shards can be stepped over at once
        uint64_t h = 0x9E3779B97F4A7C15ull; for (size_t i = 0; i + 1 < pos_; ++i) { h = (h ^ seq_[i]) * 0xD6E8FEB86659FD93ull; h ^= h >> 32; }
        const size_t at = (h + (pos_ ? seq_[pos_ - 1] : 0)) % nshards_;
        if (at != shard_) { jump_ = (shard_ + nshards_ - at) % nshards_ - 1; throw Skip{}; }
    }
    void op(uint64_t n = 1) { ops_ += n; }
    [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
    void check(bool ok, const char* what) { if (!ok) fail(what); }
    void sample(const std::string& s) { if (samples_.size() < 3 && s.size() < 400) samples_.push_back(part_ + ":" + name() + " " + s); }
    bool want_sample() const { return samples_.size() < 3; }
    void outcome(const std::string& o) { if (outcomes_.size() < 100000) outcomes_.insert(o); }
    std::string name() const { std::string r; for (size_t i = 0; i < pos_; ++i) { if (i) r += '.'; r += std::to_string(seq_[i]); } return r; }
    bool thorough = false;
    bool replaying() const { return replay_; }
    const std::string& part() const { return part_; }
    int shard() const { return int(shard_); }
private:
    friend int run_main(int, char**, const char*);
    std::vector<size_t> seq_, lim_;
    size_t pos_ = 0, jump_ = 0;
    bool replay_ = false;
    size_t nshards_ = 1, shard_ = 0;
    uint64_t fresh_ = 0, states_ = 0, ops_ = 0, traces_ = 0;
    std::vector<std::string> samples_;
    std::set<std::string> outcomes_;
    std::string part_;
    Shared* sh_ = nullptr;
};

struct Part { const char* name; std::function<void(X&)> body; bool thorough_only; };
inline std::vector<Part>& parts() { static std::vector<Part> p; return p; }
struct Reg { Reg(const char* n, std::function<void(X&)> b, bool t = false) { parts().push_back({n, std::move(b), t}); } };
#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
#define PART(name) static void MC_CAT(part_,__LINE__)(mc::X&); static mc::Reg MC_CAT(reg_,__LINE__){name, MC_CAT(part_,__LINE__)}; static void MC_CAT(part_,__LINE__)(mc::X& x)
#define PART_T(name) static void MC_CAT(part_,__LINE__)(mc::X&); static mc::Reg MC_CAT(reg_,__LINE__){name, MC_CAT(part_,__LINE__), true}; static void MC_CAT(part_,__LINE__)(mc::X& x)

inline volatile uint64_t g_exec = 0;
inline uint64_t g_last_exec = ~0ull;
inline int g_same = 0, g_limit = 45;
inline void on_tick(int) {
    if (g_exec == g_last_exec) { if (++g_same >= g_limit) { const char m[] = "HANG: execution exceeded its CPU budget\n"; (void)!write(2, m, sizeof m - 1); _exit(11); } }
    else { g_last_exec = g_exec; g_same = 0; }
}

inline std::string jesc(const std::string& s) {
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += char(c); } return o;
}

// exit codes: 0 all held; 10 model disagreement; 11 hang; 12 sanitizer; 13 unexpected exception; 14 harness error
inline int run_main(int argc, char** argv, const char* prop) {
    std::string replay, shfile, only; size_t nsh = 1, sh = 0; bool thorough = false; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--shard") { std::sscanf(argv[++i], "%zu/%zu", &sh, &nsh); }
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--state") shfile = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--thorough") thorough = true;
        else if (a == "--limit") g_limit = std::atoi(argv[++i]);
        else if (a == "--list") list = true;
    }
    if (list) { for (auto& p : parts()) std::printf("%s\n", p.name); return 0; }
    Shared* s = nullptr;
    if (!shfile.empty()) {
        int fd = open(shfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return 14;
        s = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd); std::memset(s, 0, sizeof *s);
    }
    struct sigaction sa{}; sa.sa_handler = on_tick; sigaction(SIGVTALRM, &sa, nullptr);
    itimerval tv{{1,0},{1,0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);

    uint64_t states = 0, ops = 0, traces = 0; std::vector<std::string> samples, partinfo; std::set<std::string> outcomes; bool matched = false;
    std::string rpart, rseq;
    if (!replay.empty()) { auto c = replay.find(':'); rpart = replay.substr(0, c); rseq = c == std::string::npos ? "" : replay.substr(c + 1); }
    for (auto& p : parts()) {
        if (!replay.empty() && rpart != p.name) continue;
        if (replay.empty() && p.thorough_only && !thorough) continue;
        if (!only.empty() && only != p.name) continue;
        matched = true;
        X x; x.thorough = thorough; x.part_ = p.name; x.nshards_ = nsh; x.shard_ = sh; x.sh_ = s;
        if (s) { std::strncpy(s->part, p.name, sizeof s->part - 1); s->n = 0; }
        if (!replay.empty()) {
            x.replay_ = true;
            const char* q = rseq.c_str();
            while (*q) { x.seq_.push_back(std::strtoull(q, const_cast<char**>(&q), 10)); x.lim_.push_back(0); if (*q == '.') ++q; }
        }
        for (;;) {
            x.pos_ = 0; x.jump_ = 0; g_exec = g_exec + 1;
            try { p.body(x); ++x.traces_; x.states_ += x.fresh_ + 1; }
            catch (const Skip&) {}                     // another shard's unit
            catch (const Prune&) { x.states_ += x.fresh_; }

            catch (const Fail& f) { std::fflush(stdout); std::printf("FAIL %s:%s %s\n", p.name, x.name().c_str(), f.msg.c_str()); std::fflush(stdout); _exit(10); }
            catch (const std::exception& e) { std::printf("FAIL %s:%s unexpected exception: %s\n", p.name, x.name().c_str(), e.what()); std::fflush(stdout); _exit(13); }
            x.fresh_ = 0;
            if (x.replay_) break;
            // advance: drop choices below pos_ (Skip/short runs), bump the last one that can be bumped
            x.seq_.resize(x.pos_); x.lim_.resize(x.pos_);
            if (!x.seq_.empty()) x.seq_.back() = std::min(x.seq_.back() + x.jump_, x.lim_.back() - 1);
            while (!x.seq_.empty() && x.seq_.back() + 1 >= x.lim_.back()) { x.seq_.pop_back(); x.lim_.pop_back(); }
            if (x.seq_.empty()) break;
            ++x.seq_.back(); ++x.fresh_;
            if (s) { s->n = uint32_t(std::min<size_t>(x.seq_.size(), 4096)); if (x.seq_.size() <= 4096) s->choices[x.seq_.size() - 1] = uint32_t(x.seq_.back()); }
        }
        states += x.states_; ops += x.ops_; traces += x.traces_;
        for (auto& q : x.samples_) samples.push_back(q);
        for (auto& o : x.outcomes_) outcomes.insert(o);
        partinfo.push_back(std::string("\"") + p.name + "\":{\"executions\":" + std::to_string(x.traces_) + ",\"ops\":" + std::to_string(x.ops_) + "}");
    }
    if (!matched) { std::fprintf(stderr, "no such part\n"); return 14; }
    std::printf("RESULT {\"property\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"outcomes\":%zu,\"samples\":[", prop, (unsigned long long)states, (unsigned long long)ops, (unsigned long long)traces, outcomes.size());
    for (size_t i = 0; i < samples.size() && i < 12; ++i) std::printf("%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
    std::printf("],\"parts\":{"); for (size_t i = 0; i < partinfo.size(); ++i) std::printf("%s%s", i ? "," : "", partinfo[i].c_str());
    std::printf("}}\n");
    return 0;
}

// Exact-size heap block: any access outside is reported by AddressSanitizer.
struct Bytes {
    uint8_t* p; size_t n;
    explicit Bytes(std::span<const uint8_t> v, size_t mis = 0) : n(v.size()) { base = static_cast<uint8_t*>(std::malloc(n + mis ? n + mis : 1)); p = base + mis; if (n) std::memcpy(p, v.data(), n); }
    Bytes(const Bytes&) = delete; Bytes& operator=(const Bytes&) = delete;
    ~Bytes() { std::free(base); }
    std::span<const uint8_t> span() const { return {p, n}; }
    bool holds(const void* q, size_t len) const { auto* c = static_cast<const uint8_t*>(q); return len == 0 ? true : (c >= p && c + len <= p + n); }
private: uint8_t* base;
};
inline std::string hex(std::span<const uint8_t> v, size_t max = 80) { std::string o; char b[4]; for (size_t i = 0; i < v.size() && i < max; ++i) { std::snprintf(b, sizeof b, "%02x", v[i]); o += b; } if (v.size() > max) o += ".."; return o; }

} // namespace mc
