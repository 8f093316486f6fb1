// C16: two operating system threads under a controlled scheduler. The code under test is compiled with the memory-access
// instrumentation of -fsanitize=thread, but the calls it makes land here: every function entry and every access to the static
// memory of the program is a scheduling point. Every execution runs in a fresh process, so first uses are explored too.
#define C16_BYTES
#include "c16.hpp"
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <time.h>
#define NOI __attribute__((no_sanitize("thread"), noinline))
extern "C" char __data_start, _end;
namespace {
struct Sched { int from[3]; uint64_t at[3]; int n; };                 // preempt thread from[i] when it reaches its at[i]-th point
Sched g_s; int g_next; int g_turn; int g_free; uint64_t g_cnt[2]; bool g_on; bool g_entries_only;
thread_local int t_me = -1; thread_local bool t_in;
NOI void fwait(int* a, int v) { timespec ts{0, 200000000}; if (syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, &ts, nullptr, 0) == -1 && errno == ETIMEDOUT) __atomic_store_n(&g_free, 1, __ATOMIC_SEQ_CST); }
NOI void await(int me) { for (;;) { int t = __atomic_load_n(&g_turn, __ATOMIC_SEQ_CST); if (t == me || __atomic_load_n(&g_free, __ATOMIC_SEQ_CST)) return; fwait(&g_turn, t); } }   // a thread that cannot get on for a while (the other one waits for a lock it holds) continues
NOI void give(int to) { __atomic_store_n(&g_turn, to, __ATOMIC_SEQ_CST); syscall(SYS_futex, &g_turn, FUTEX_WAKE_PRIVATE, 2, nullptr, nullptr, 0); }
NOI inline void point() { if (t_me < 0 || t_in || !g_on) return; t_in = true; uint64_t c = ++g_cnt[t_me]; if (g_next < g_s.n && g_s.from[g_next] == t_me && g_s.at[g_next] == c) { ++g_next; give(1 - t_me); await(t_me); } t_in = false; }
NOI inline void access(void* p) { if (t_me < 0 || t_in || g_entries_only) return; if (static_cast<char*>(p) >= &__data_start && static_cast<char*>(p) < &_end) point(); }
}
extern "C" {
void __tsan_init() {} NOI void __tsan_func_entry(void*) { point(); } void __tsan_func_exit() {}
#define RW(n) NOI void __tsan_read##n(void* p) { access(p); } NOI void __tsan_write##n(void* p) { access(p); } NOI void __tsan_unaligned_read##n(void* p) { access(p); } NOI void __tsan_unaligned_write##n(void* p) { access(p); } NOI void __tsan_volatile_read##n(void* p) { access(p); } NOI void __tsan_volatile_write##n(void* p) { access(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
NOI void __tsan_read_range(void* p, size_t) { access(p); } NOI void __tsan_write_range(void* p, size_t) { access(p); } NOI void __tsan_vptr_update(void** p, void*) { access(p); } NOI void __tsan_vptr_read(void** p) { access(p); }
#define AT(b, T) NOI T __tsan_atomic##b##_load(const volatile T* a, int) { access((void*)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } NOI void __tsan_atomic##b##_store(volatile T* a, T v, int) { access((void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } NOI T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { access((void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 NOI T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { access((void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } NOI T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { access((void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } NOI T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { access((void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } NOI T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { access((void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } NOI T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { access((void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } NOI T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { access((void*)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
 NOI bool __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { access((void*)a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } NOI bool __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { access((void*)a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } NOI T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) { access((void*)a); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); } void __tsan_atomic_signal_fence(int) {}
// function-local statics: the guards of the C++ ABI, with waiting turned into a hand-over, so that a thread preempted inside an initialisation is scheduled again
int guard_acquire(uint64_t* g) __asm__("__cxa_guard_acquire"); NOI int guard_acquire(uint64_t* g) { auto* b = reinterpret_cast<unsigned char*>(g); for (;;) { if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0; unsigned char z0 = 0; if (__atomic_compare_exchange_n(b + 1, &z0, 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 1; if (t_me >= 0 && g_on && !__atomic_load_n(&g_free, __ATOMIC_SEQ_CST)) { const bool in = t_in; t_in = true; give(1 - t_me); await(t_me); t_in = in; } else { timespec ts{0, 100000}; nanosleep(&ts, nullptr); } } }
void guard_release(uint64_t* g) __asm__("__cxa_guard_release"); NOI void guard_release(uint64_t* g) { auto* b = reinterpret_cast<unsigned char*>(g); __atomic_store_n(b, 1, __ATOMIC_RELEASE); __atomic_store_n(b + 1, 0, __ATOMIC_SEQ_CST); }
void guard_abort(uint64_t* g) __asm__("__cxa_guard_abort"); NOI void guard_abort(uint64_t* g) { __atomic_store_n(reinterpret_cast<unsigned char*>(g) + 1, 0, __ATOMIC_SEQ_CST); }
}
struct Arg { int me; const Named* n; int who; Log* out; };
NOI static void* body(void* v) { Arg* a = static_cast<Arg*>(v); await(a->me); t_me = a->me; *a->out = alone(*a->n, a->who, false); t_me = -1; give(1 - a->me); return nullptr; }
struct Out { uint64_t cnt[2]; uint32_t len[2]; char text[2][200000]; };
static Out* g_out;
// one execution in a process of its own
static int execute(const Named& a, const Named* b, const Sched& s, bool warm, bool entries) {
    std::memset(g_out, 0, sizeof(uint64_t) * 2 + 8); pid_t pid = fork(); if (pid < 0) { std::perror("fork"); _exit(14); }
    if (pid == 0) { struct itimerval off{}; setitimer(ITIMER_VIRTUAL, &off, nullptr); alarm(30); signal(SIGALRM, SIG_DFL);
        if (warm) { (void)alone(a, 2, false); if (b) (void)alone(*b, 2, false); }
        g_s = s; g_next = 0; g_turn = 0; g_free = 0; g_cnt[0] = g_cnt[1] = 0; g_entries_only = entries; g_on = true; Log l[2]; Arg arg[2] = {{0, &a, 0, &l[0]}, {1, b, 1, &l[1]}}; pthread_t t[2]; for (int j = 0; j < (b ? 2 : 1); ++j) if (pthread_create(&t[j], nullptr, body, &arg[j])) _exit(14); for (int j = 0; j < (b ? 2 : 1); ++j) pthread_join(t[j], nullptr);
        for (int j = 0; j < 2; ++j) { g_out->cnt[j] = g_cnt[j]; g_out->len[j] = uint32_t(std::min<size_t>(l[j].size(), sizeof g_out->text[j])); std::memcpy(g_out->text[j], l[j].data(), g_out->len[j]); } _exit(0); }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} return st; }
struct Solo { Log l; uint64_t points; };
static const Solo& solo(size_t k, int who, bool warm, bool entries) { static std::map<std::tuple<size_t, int, bool, bool>, Solo> m; auto [it, nw] = m.try_emplace({k, who, warm, entries}); if (nw) { // participant 1 takes its data from `who`: run it as participant 0 with a renamed factory
        Named n = progs()[k]; auto mk = n.make; if (who) n.make = [mk, who](int w, bool sh) { return mk(w == 2 ? 2 : who, sh); }; int st = execute(n, nullptr, Sched{}, warm, entries); if (st != 0) { std::fprintf(stderr, "a program fails on its own\n"); raise(SIGABRT); } it->second = {Log(g_out->text[0], g_out->len[0]), g_out->cnt[0]}; }
    return it->second; }
static void judge(mc::X& x, size_t a, size_t b, bool warm, bool entries, const Sched& s) { x.op(); int st = execute(progs()[a], &progs()[b], s, warm, entries); const std::string nm = progs()[a].name + " and " + progs()[b].name; if (WIFSIGNALED(st)) x.fail(nm + ": the process was ended by signal " + std::to_string(WTERMSIG(st))); if (st != 0) x.fail(nm + ": the process exited with " + std::to_string(WEXITSTATUS(st)));
    for (int j = 0; j < 2; ++j) { Log l(g_out->text[j], g_out->len[j]); const Log& w = solo(j ? b : a, j, warm, entries).l; if (l != w) { size_t d = 0; while (d < l.size() && d < w.size() && l[d] == w[d]) ++d; x.fail(nm + ": thread " + std::to_string(j) + " sees something else than alone, from character " + std::to_string(d) + " of its log"); } } }
static void memo_out(mc::X& x, size_t a, size_t b, bool warm, bool entries) { (void)solo(a, 0, warm, entries); (void)solo(b, 1, warm, entries); (void)x; }
static void one(mc::X& x, size_t a, size_t b, bool warm) { memo_out(x, a, b, warm, false); uint64_t n = solo(a, 0, warm, false).points; uint64_t k = x.choose(size_t(n)) + 1; x.go(); Sched s{}; s.n = 1; s.from[0] = 0; s.at[0] = k; judge(x, a, b, warm, false, s); if (x.want_sample()) x.sample(progs()[a].name + " preempted at point " + std::to_string(k) + " of " + std::to_string(n) + " by " + progs()[b].name); x.outcome(std::to_string(a) + "/" + std::to_string(b)); }
// one preemption anywhere in one thread; the other one runs to its end in between
PART("preempt-same-protocol") { size_t p = x.choose(5), a = x.choose(PER), b = x.choose(PER); bool warm = x.thorough && x.flip(); one(x, p * PER + a, p * PER + b, warm); }
PART_T("preempt-across-protocols") { size_t a = x.choose(5 * PER), b = x.choose(5 * PER); if (a / PER == b / PER) throw mc::Prune{}; one(x, a, b, false); }
// two preemptions: thread 0 at any point, then thread 1 at any point, thread 0 to its end, thread 1 to its end
PART_T("preempt-twice") { size_t p = x.choose(5), a = x.choose(PER), b = x.choose(PER); size_t A = p * PER + a, B = p * PER + b; memo_out(x, A, B, true, true); uint64_t n = solo(A, 0, true, true).points, m = solo(B, 1, true, true).points; uint64_t k = x.choose(size_t(n)) + 1; x.go(); uint64_t j = x.choose(size_t(m)) + 1; Sched s{}; s.n = 2; s.from[0] = 0; s.at[0] = k; s.from[1] = 1; s.at[1] = j; judge(x, A, B, true, true, s); }
NOI int main(int c, char** v) {
    g_out = static_cast<Out*>(mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    int fd[2]; if (pipe(fd)) return 14; pid_t pid = fork(); if (pid == 0) { std::string all; auto add = [&](const Bytes& b) { uint32_t n = uint32_t(b.size()); all.append(reinterpret_cast<char*>(&n), 4); all.append(b.begin(), b.end()); }; for (int w = 0; w < 3; ++w) { add(encode<z::Zera>(doc(w))); add(encode<z::MsgPack>(doc(w))); add(encode<z::Flex>(doc(w))); add(encode<z::JSON>(doc(w))); add(encode<z::CBOR>(doc(w))); } size_t o = 0; while (o < all.size()) { ssize_t n = write(fd[1], all.data() + o, all.size() - o); if (n <= 0) _exit(1); o += size_t(n); } _exit(0); }
    close(fd[1]); std::string all; char buf[4096]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, size_t(n)); close(fd[0]); int st = 0; waitpid(pid, &st, 0); if (st != 0) { std::fprintf(stderr, "the documents could not be written\n"); raise(SIGABRT); } size_t o = 0; for (int w = 0; w < 3; ++w) for (int p = 0; p < 5; ++p) { uint32_t k; std::memcpy(&k, all.data() + o, 4); o += 4; g_bytes[p].emplace_back(all.begin() + long(o), all.begin() + long(o + k)); o += k; }
    return mc::run_main(c, v, "C16"); }
