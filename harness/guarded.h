// Write monitor: while an operation runs, everything it shares with other threads is write-protected: the objects it
// is given (built in an arena) and all global and static data of the program. Every write to them is recorded, except
// atomic read-modify-writes, writes under a lock, and the one-time initialisation of a local static.
#pragma once
#define __x86_64__ 1 // the system headers need it; the code under test is built without (scalar_prefix.h)
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <cstdlib>
#include <new>
#include <string>
#include <vector>
#undef __x86_64__
namespace gd {
static const size_t ARENA = 256u << 20;
static thread_local bool building = false;
static char* arena = nullptr; static size_t used = 0;
static thread_local int critical = 0;          // depth of locks and guarded initialisations
static thread_local bool watching = false;
struct Range { char* a; char* b; };
struct State { bool on = false; size_t writes = 0; char what[256] = {0}; int n = 0; Range r[32]; };
static State* st = nullptr;                     // in its own pages, never protected
static void prot(int how) { for (int i = 0; i < st->n; i++) mprotect(st->r[i].a, st->r[i].b - st->r[i].a, how); }
static inline void enter() { if (watching && critical++ == 0) prot(PROT_READ | PROT_WRITE); }
static inline void leave() { if (watching && critical > 0 && --critical == 0) prot(PROT_READ); }
static bool atomic_insn(const unsigned char* p) {
    for (int i = 0; i < 6; i++) { if (p[i] == 0xF0) return true; if (p[i] == 0x66 || p[i] == 0xF2 || p[i] == 0xF3 || (p[i] >= 0x40 && p[i] <= 0x4F) || p[i] == 0x64 || p[i] == 0x65) continue; return p[i] == 0x86 || p[i] == 0x87; }
    return false;
}
static struct sigaction old_action;
static void on_fault(int sig, siginfo_t* si, void* uc) {
    char* p = (char*)si->si_addr; bool ours = false;
    if (watching && critical == 0) for (int i = 0; i < st->n; i++) if (p >= st->r[i].a && p < st->r[i].b) ours = true;
    if (!ours) { sigaction(sig, &old_action, nullptr); return; } // fault again, for real
    void* ip = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    mprotect((char*)((uintptr_t)p & ~4095ull), 4096, PROT_READ | PROT_WRITE);
    if (atomic_insn((const unsigned char*)ip)) return;
    if (st->writes++ == 0) { Dl_info d; const char* fn = dladdr(ip, &d) && d.dli_sname ? d.dli_sname : "?"; snprintf(st->what, sizeof st->what, "%s data is written by %s", p >= arena && p < arena + ARENA ? "the shared object's" : "global or static", fn); }
}
static int segment(struct dl_phdr_info* info, size_t, void*) {
    uintptr_t ro0 = 0, ro1 = 0;
    for (int i = 0; i < info->dlpi_phnum; i++) if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) { ro0 = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr; ro1 = ro0 + info->dlpi_phdr[i].p_memsz; }
    for (int i = 0; i < info->dlpi_phnum; i++) { auto& h = info->dlpi_phdr[i]; if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
        uintptr_t a = (info->dlpi_addr + h.p_vaddr) & ~4095ull, b = (info->dlpi_addr + h.p_vaddr + h.p_memsz + 4095) & ~4095ull;
        if (ro1 > a && ro0 <= a + 4096) a = (ro1 + 4095) & ~4095ull;
        if (a < b && st->n < 30) st->r[st->n++] = {(char*)a, (char*)b}; }
    return 1; // the program itself only
}
static void init() {
    if (st) return;
    arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    st = new (mmap(nullptr, 4096 * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) State();
    dl_iterate_phdr(segment, nullptr);
    struct sigaction s; memset(&s, 0, sizeof s); s.sa_sigaction = on_fault; s.sa_flags = SA_SIGINFO; sigemptyset(&s.sa_mask); sigaction(SIGSEGV, &s, &old_action);
}
// everything allocated in here, and the object itself, is shared
template <class F> static auto share(F f) { init(); building = true; auto* p = f(); building = false; return p; }
static void fresh() { init(); used = 0; }
// runs f with the shared state protected; empty if nothing shared was written
template <class F> static std::string monitored(F f) {
    init(); int n = st->n; st->r[st->n++] = {arena, arena + ((used + 4095) & ~4095ull)}; st->writes = 0; st->what[0] = 0; std::string err;
    watching = true; prot(PROT_READ);
    try { f(); } catch (...) { critical = 0; prot(PROT_READ | PROT_WRITE); watching = false; st->n = n; throw; }
    prot(PROT_READ | PROT_WRITE); watching = false; critical = 0; st->n = n;
    if (st->writes) err = std::string(st->what) + (st->writes > 1 ? " and others" : "");
    return err;
}
}
static void* gd_alloc(size_t n, size_t al) {
    if (gd::building) { size_t o = (gd::used + al - 1) & ~(al - 1); if (o + n > gd::ARENA) throw std::bad_alloc(); gd::used = o + n; return gd::arena + o; }
    void* p = nullptr; if (al <= 16) p = malloc(n ? n : 1); else if (posix_memalign(&p, al, n ? n : 1)) p = nullptr; if (!p) throw std::bad_alloc(); return p;
}
static void gd_free(void* p) { if ((char*)p >= gd::arena && (char*)p < gd::arena + gd::ARENA && gd::arena) return; free(p); }
void* operator new(size_t n) { return gd_alloc(n, 16); }
void* operator new[](size_t n) { return gd_alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return gd_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return gd_alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { gd_free(p); }
void operator delete[](void* p) noexcept { gd_free(p); }
void operator delete(void* p, size_t) noexcept { gd_free(p); }
void operator delete[](void* p, size_t) noexcept { gd_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { gd_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { gd_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { gd_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { gd_free(p); }
extern "C" {
int __cxa_guard_acquire(uint64_t* g) { if (*(volatile char*)g) return 0; gd::enter(); return 1; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; gd::leave(); }
void __cxa_guard_abort(uint64_t*) { gd::leave(); }
int pthread_mutex_lock(pthread_mutex_t* m) { static int (*f)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); gd::enter(); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { static int (*f)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = f(m); gd::leave(); return r; }
}
