// C05: mirrored allocations under injected operating system refusals
#include "queue_ops.hpp"
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <dirent.h>
#include <thread>
#include <pthread.h>

// ---- interposed system calls (linked with --wrap) --------------------------------------
struct Faults {
    bool armed = false;
    unsigned count = 0;              // calls seen while armed
    std::vector<int> plan;           // errno to return at call number i (0: let it through)
    int lie = -1;                    // fixed shared mapping number `lie` silently maps private memory instead
    unsigned shared_maps = 0;
    std::vector<std::string> log;
    std::set<std::string> names;     // shared memory names not unlinked
    std::set<int> fds;               // open descriptors made through these calls
    std::map<uintptr_t, uintptr_t> maps;   // live address ranges
    bool fail(const char* what) {
        if (!armed) return false;
        unsigned i = count++;
        int e = i < plan.size() ? plan[i] : 0;
        log.push_back(std::string(what) + (e ? "!" : ""));
        if (e) errno = e;
        return e != 0;
    }
};
static Faults* F;
static void map_add(void* p, size_t n) { if (F && F->armed && p != MAP_FAILED) F->maps[(uintptr_t)p] = (uintptr_t)p + n; }
static void map_del(uintptr_t a, uintptr_t b) {
    std::map<uintptr_t, uintptr_t> out;
    for (auto& [x, y] : F->maps) { if (y <= a || x >= b) out[x] = y; else { if (x < a) out[x] = a; if (y > b) out[b] = y; } }
    F->maps.swap(out);
}
extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_ftruncate(int, off_t);
int __real_close(int);
int __real_shm_open(const char*, int, mode_t);
int __real_shm_unlink(const char*);
int __real_memfd_create(const char*, unsigned);
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
    if (!F) return __real_mmap(a, n, prot, flags, fd, off);
    if (F->fail("mmap")) return MAP_FAILED;
    if (F->armed && (flags & MAP_SHARED) && (flags & MAP_FIXED) && (int)F->shared_maps++ == F->lie) { flags = (flags & ~MAP_SHARED) | MAP_PRIVATE | MAP_ANONYMOUS; fd = -1; }
    void* p = __real_mmap(a, n, prot, flags, fd, off);
    if (p != MAP_FAILED) { if ((flags & MAP_FIXED) && F->armed) map_del((uintptr_t)p, (uintptr_t)p + n); map_add(p, n); }
    return p;
}
int __wrap_munmap(void* a, size_t n) {
    if (F && F->armed) {
        uintptr_t x = (uintptr_t)a, y = x + (n + 4095) / 4096 * 4096;
        // nothing may be unmapped that was not mapped here
        uintptr_t cov = 0; for (auto& [p, q] : F->maps) { uintptr_t lo = std::max(p, x), hi = std::min(q, y); if (lo < hi) cov += hi - lo; }
        CHECK(cov == y - x, "munmap of %zu bytes, of which only %zu are mapped by the allocation", n, (size_t)cov);
        map_del(x, y);
    }
    return __real_munmap(a, n);
}
int __wrap_ftruncate(int fd, off_t n) { if (F && F->fail("ftruncate")) return -1; return __real_ftruncate(fd, n); }
int __wrap_close(int fd) {
    if (F && F->armed) { CHECK(F->fds.erase(fd), "close(%d): not an open descriptor of the allocation", fd); }
    return __real_close(fd);
}
int __wrap_shm_open(const char* n, int fl, mode_t m) { if (F && F->fail("shm_open")) return -1; int fd = __real_shm_open(n, fl, m); if (F && F->armed && fd >= 0) { F->fds.insert(fd); F->names.insert(n); } return fd; }
int __wrap_shm_unlink(const char* n) { if (F) F->names.erase(n); return __real_shm_unlink(n); }
int __wrap_memfd_create(const char* n, unsigned fl) { if (F && F->fail("memfd")) return -1; int fd = __real_memfd_create(n, fl); if (F && F->armed && fd >= 0) F->fds.insert(fd); return fd; }
long __real_syscall(long, ...);
long __wrap_syscall(long nr, ...) {
    va_list ap; va_start(ap, nr); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), g = va_arg(ap, long); va_end(ap);
    if (nr == SYS_memfd_create) { if (F && F->fail("memfd")) return -1; long fd = __real_syscall(nr, a, b); if (F && F->armed && fd >= 0) F->fds.insert((int)fd); return fd; }
    return __real_syscall(nr, a, b, c, d, e, g);
}
}
static std::set<std::string> open_fds() {
    std::set<std::string> r; DIR* d = opendir("/proc/self/fd"); if (!d) return r;
    std::string self = std::to_string(dirfd(d));
    while (auto* e = readdir(d)) if (e->d_name[0] != '.' && self != e->d_name) r.insert(e->d_name);
    closedir(d); return r;
}
static size_t shm_maps() { size_t n = 0; FILE* f = fopen("/proc/self/maps", "r"); char l[512]; while (f && fgets(l, sizeof l, f)) n += strstr(l, "memfd:cler") || strstr(l, "/dev/shm/"); if (f) fclose(f); return n; }

static void plan(pbt::Src& s, Faults& f, bool none_ok) {
    unsigned how = s.below(none_ok ? 6 : 5) + (none_ok ? 0 : 1);
    auto err = [&] { return s.pick({ENOMEM, EMFILE, ENFILE, EPERM, ENOSYS, EINVAL, EACCES, ENOSPC}); };
    f.plan.assign(14, 0);
    if (how == 0) return;
    if (how <= 2) f.plan[s.below(7)] = err();                        // one call
    else if (how == 3) { f.plan[0] = ENOSYS; f.plan[1 + s.below(6)] = err(); }   // no memfd, and one more
    else if (how == 4) { f.plan[0] = ENOSYS; }                        // no memfd: the fallback
    else { for (auto& x : f.plan) if (s.chance(1, 3)) x = err(); f.lie = s.chance(1, 2) ? (int)s.below(2) : -1; }
}
static std::string logstr(const Faults& f) { std::string r; for (auto& x : f.log) r += x + " "; return r; }

static void aliases(pbt::Src& s, cler::vmem::DoublyMappedAllocation& a, size_t asked) {
    CHECK(a.valid() && a.data() && a.second_mapping(), "a successful allocation is not valid");
    size_t n = a.size();
    CHECK(n >= asked, "asked for %zu bytes, got %zu", asked, n);
    char *p = (char*)a.data(), *q = (char*)a.second_mapping();
    CHECK(q == p + n, "the second half does not follow the first at once");
    pbt::Bulk r(s.subseed());
    std::vector<size_t> at; if (n <= 16384) for (size_t i = 0; i < n; ++i) at.push_back(i); else { for (size_t i = 0; i < n; i += 4096) { at.push_back(i); at.push_back(i + 4095 < n ? i + 4095 : n - 1); } for (int i = 0; i < 500; ++i) at.push_back(r.below(n)); }
    std::vector<unsigned char> val(at.size());
    uint64_t key = r.u64() | 1; auto pat = [&](size_t i, int k) { return (unsigned char)(((i + 1) * key + k * 77) >> 11); };
    for (size_t i : at) p[i] = pat(i, 0);
    for (size_t i : at) CHECK((unsigned char)q[i] == pat(i, 0), "byte %zu of %zu written through the first half reads differently through the second", i, n);
    for (size_t i : at) q[i] = pat(i, 1);
    for (size_t i : at) CHECK((unsigned char)p[i] == pat(i, 1), "byte %zu of %zu written through the second half reads differently through the first", i, n);
}
static size_t some_size(pbt::Src& s) {
    switch (s.weighted({3, 3, 2, 1, 1})) {
        case 0: return 4096 * (1 + s.below(6));
        case 1: return 1 + s.below(40000);
        case 2: return 4096 * (1 + s.below(64)) + s.range(-2, 2);
        case 3: return (2u << 20) * (1 + s.below(2)) + 4096 * s.range(-2, 2) + s.range(-1, 1);
        default: return s.pick<size_t>({0, SIZE_MAX, SIZE_MAX - 4095, SIZE_MAX / 2 + 1, (size_t)1 << 46, ((size_t)1 << 47) + 5});
    }
}

PROPERTY(allocation_history, 9000 / SHARE, 100000 / SHARE, "a history of create, re-create, move construction, move assignment (also from empty and over live ones) and release on several allocations with planned refusals of individual system calls; descriptors and mappings compared with a ledger and with /proc; non-trivial: a refusal hit or an allocation was moved or re-created") {
    using A = cler::vmem::DoublyMappedAllocation;
    auto fd0 = open_fds(); size_t m0 = shm_maps();
    Faults f; F = &f; f.armed = true;
    size_t interesting = 0;
    {
        std::vector<std::unique_ptr<A>> v; std::vector<size_t> asked;
        for (int i = 0; i < 3; ++i) { v.push_back(std::make_unique<A>()); asked.push_back(0); }
        auto val = [&](size_t i) { return v[i] && v[i]->valid(); };
        for (size_t k = 0; k < 12 && s.more(8); ++k) {
            size_t i = s.below(3), j = s.below(3);
            switch (s.weighted({5, 2, 2, 1, 1})) {
            case 0: {
                size_t n = some_size(s); bool had = val(i);
                f.count = 0; f.log.clear(); f.shared_maps = 0; f.lie = -1; f.plan.clear();
                if (s.chance(2, 3)) plan(s, f, true);
                bool ok = v[i]->create(n);
                std::string log = logstr(f); bool refused = log.find('!') != std::string::npos; bool lied = f.lie >= 0 && (int)f.shared_maps > f.lie;
                f.plan.clear(); f.lie = -1;
                s.note("create#%zu(%zu)=%d [%s%s] ", i, n, ok, log.c_str(), lied ? "private mapping" : "");
                interesting += refused || had;
                if (ok) { aliases(s, *v[i], n); asked[i] = n; s.label("created"); if (refused) s.label("created in spite of a refusal"); }
                else {
                    CHECK(!v[i]->valid() && v[i]->size() == 0 && !v[i]->data() && !v[i]->second_mapping(), "a failed allocation still looks valid");
                    CHECK(refused || lied || n == 0 || n > ((size_t)1 << 40), "creating %zu bytes failed although nothing was refused", n);
                    asked[i] = 0; s.label(refused, "refused");
                }
                break; }
            case 1: { bool had = val(j); size_t sz = had ? v[j]->size() : 0; void* d = had ? v[j]->data() : nullptr;
                s.note("move#%zu=#%zu ", i, j); *v[i] = std::move(*v[j]); interesting += had;
                if (i != j) { asked[i] = asked[j]; asked[j] = 0; CHECK(!val(j), "a moved-from allocation still looks valid"); }
                CHECK(val(i) == had, "move assignment lost or invented an allocation");
                if (had) { CHECK(v[i]->size() == sz && v[i]->data() == d, "moving changed the allocation"); aliases(s, *v[i], asked[i]); }
                break; }
            case 2: { bool had = val(i); s.note("moveconstruct#%zu ", i); auto n = std::make_unique<A>(std::move(*v[i])); v[i].swap(n); interesting += had;
                CHECK(!n->valid() && val(i) == had, "move construction lost or duplicated an allocation");
                if (had) aliases(s, *v[i], asked[i]); break; }
            case 3: s.note("release#%zu ", i); v[i] = std::make_unique<A>(); asked[i] = 0; break;
            default: if (val(i)) aliases(s, *v[i], asked[i]);
            }
            // as many descriptors and mapped ranges as live allocations, no more
            size_t live = 0, bytes = 0; for (size_t x = 0; x < 3; ++x) if (val(x)) { live++; bytes += 2 * v[x]->size(); }
            size_t have = 0; for (auto& [p, q] : f.maps) have += q - p;
            CHECK(f.fds.size() <= live, "%zu descriptors open for %zu live allocations", f.fds.size(), live);
            CHECK(have == bytes, "%zu bytes mapped, live allocations hold %zu", have, bytes);
        }
    }
    f.armed = false; F = nullptr;
    CHECK(f.fds.empty(), "%zu descriptors leaked", f.fds.size());
    CHECK(f.names.empty(), "a shared memory name was left behind");
    CHECK(f.maps.empty(), "%zu mappings leaked", f.maps.size());
    CHECK(open_fds() == fd0, "open descriptors before: %zu, after releasing everything: %zu", fd0.size(), open_fds().size());
    CHECK(shm_maps() == m0, "shared mappings before: %zu, after releasing everything: %zu", m0, shm_maps());
    s.nontrivial(interesting > 0);
}

template <class Fn> static void isolated(Fn fn) {   // the capability probe is remembered per process
    pid_t p = fork();
    if (p == 0) { fn(); _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(76); }
}
PROPERTY(channel_without_memory, 4000 / SHARE, 40000 / SHARE, "a channel constructed while the operating system refuses planned steps (of the capability probe, of the allocation, or both), then used in a mixed history; non-trivial: the channel is of the size that would be mirrored") {
    bool probe_first = s.flip(); size_t kind = s.below(4);
    Faults f; plan(s, f, false);
    if (s.chance(1, 2)) { f.plan[s.below(14)] = ENOMEM; }   // reaches the allocation behind a successful probe
    f.lie = -1;
    s.nontrivial(kind != 0); s.label(probe_first, "probe succeeded before");
    isolated([&] {
        auto fd0 = open_fds(); size_t m0 = shm_maps();
        F = &f;
        if (probe_first) (void)cler::platform::supports_doubly_mapped_buffers();
        f.armed = true;
        size_t cap = kind == 0 ? 1 + s.below(50) : kind == 1 ? 1024 + s.below(3000) : kind == 2 ? 100 + s.below(300) : 170 + s.below(200);
        std::unique_ptr<qops::Ops> q(kind <= 1 ? qops::via_channel<uint32_t>(0, cap) : kind == 2 ? qops::via_queue<qops::Pod<100>>(0, cap) : qops::via_channel<qops::Pod<24>>(0, cap));
        std::string l = logstr(f); f.plan.clear();
        s.note("[%s] ", l.c_str());
        size_t have = 0; for (auto& [p, r] : f.maps) have += r - p;
        if (!q->dbf()) CHECK(f.fds.empty() && f.maps.empty(), "a channel on plain storage keeps %zu descriptors and %zu mapped bytes after a refused allocation", f.fds.size(), have);
        F = nullptr;     // from here on everything is allowed, untracked
        qops::run_history(s, *q, cap, true, qops::Weights{3, 3, 2, 3, 1}, 40);
        if (q->dbf()) { F = &f; f.armed = true; }
        q.reset();
        F = nullptr;
        CHECK(f.names.empty(), "a shared memory name was left behind");
        CHECK(f.fds.empty() && f.maps.empty(), "the dead channel left %zu descriptors and %zu mappings", f.fds.size(), f.maps.size());
        CHECK(open_fds() == fd0, "descriptors leaked");
        CHECK(shm_maps() == m0, "mappings leaked");
    });
}
PROPERTY_T(first_use_by_threads, 300 / SHARE, 3000 / SHARE, 10, "several threads create their first channels at the same moment in a fresh process; every one large enough must be mirrored exactly as in a single thread; non-trivial: always") {
    size_t n = 2 + s.below(5), cap = 1024 + s.below(4000); s.note("%zu threads capacity %zu ", n, cap); s.nontrivial();
    isolated([&] {
        pthread_barrier_t b; pthread_barrier_init(&b, nullptr, (unsigned)n);
        std::vector<std::thread> t; std::vector<int> dm(n, -1);
        for (size_t i = 0; i < n; ++i) t.emplace_back([&, i] { pthread_barrier_wait(&b); dro::SPSCQueue<uint32_t> q(cap); dm[i] = q.is_doubly_mapped(); uint32_t v = (uint32_t)i; CHECK(q.try_push(v), "try_push on a new channel failed"); v = 99; CHECK(q.try_pop(v) && v == i, "a new channel lost its item"); });
        for (auto& x : t) x.join();
        dro::SPSCQueue<uint32_t> q(cap);
        for (size_t i = 0; i < n; ++i) CHECK(dm[i] == (int)q.is_doubly_mapped(), "a channel created while another thread creates its first one is %smirrored, one created alone %s", dm[i] ? "" : "not ", q.is_doubly_mapped() ? "is" : "is not");
    });
}
