// Native runtime of the harnesses: replays recorded inputs against the real library.
// usage: native ENTRY CFG INPUTFILE      (run in a scratch directory; results on stdout, "VH ..." lines)
#include "vh.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iterator>
#include <map>
#include <new>
#include <sys/resource.h>
#include <unistd.h>
#include <valgrind/memcheck.h>
static std::map<std::string, void (*)(int)>& table() { static std::map<std::string, void (*)(int)> t; return t; }
VhReg::VhReg(const char* n, void (*f)(int)) { table()[n] = f; }
struct In { std::string name, bytes; };
static std::vector<In> ins; static size_t pos; static int lenient;
static std::map<std::string, std::string> got; static int writtenFiles;
[[noreturn]] static void quit(int code) { fflush(stdout); _exit(code); }
// an allocation above the engine's bound fails there too
static size_t limit() { static size_t l = 0; if (!l) { const char* e = getenv("VH_MAXALLOC"); l = e ? strtoull(e, nullptr, 10) : 1 << 22; } return l; }
void* operator new(size_t n) { if (n > limit()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" {
void vh_sym(void* p, size_t n, const char* name)
{
    memset(p, 0, n);
    if (pos >= ins.size()) return;  // unconstrained
    std::string base = ins[pos].name.substr(0, ins[pos].name.rfind('#'));
    if (base != name || ins[pos].bytes.size() != n) { printf("VH DIVERGED %s/%zu vs %s/%zu\n", name, n, ins[pos].name.c_str(), ins[pos].bytes.size()); quit(78); }
    memcpy(p, ins[pos].bytes.data(), n); pos++;
}
void vh_assume(bool b) { if (!b) { printf("VH ASSUME\n"); quit(77); } }
void vh_assert(bool b, const char* m) { if (VALGRIND_CHECK_VALUE_IS_DEFINED(b)) { printf("VH UNINIT %s\n", m); quit(72); } if (!b) { printf("VH ASSERT %s\n", m); quit(70); } }
void vh_fail(const char* m) { printf("VH ASSERT %s\n", m); quit(70); }
void vh_reach(const char* l) { printf("VH REACH %s\n", l); }
void vh_observe(u64 v) { if (VALGRIND_CHECK_VALUE_IS_DEFINED(v)) { printf("VH UNINIT observed value\n"); quit(72); } printf("VH OBS %llx\n", (unsigned long long)v); }
u64 vh_concretize(u64 v) { return v; }
int vh_symbolic_mode() { return 0; }
size_t vm_norm(const char* p, size_t n, char* q) { if (q) memcpy(q, p, n); return n; }
void vm_fs_put(const char* n, const char* p, size_t k) { std::ofstream o(n, std::ios::binary); o.write(p, (std::streamsize)k); }
int vm_fs_has(const char* n) { return access(n, F_OK) == 0; }
size_t vm_fs_get(const char* n, const char** p) { std::ifstream i(n, std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); got[n] = s; *p = got[n].data(); return s.size(); }
void vm_hash(int) {}
void vm_fs_limit(u64 b) { signal(SIGXFSZ, SIG_IGN); struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = b; setrlimit(RLIMIT_FSIZE, &r); }
int vm_fs_open_handles() { int n = 0; for (int fd = 3; fd < 64; fd++) { char l[64], t[512]; snprintf(l, 64, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, t, 511); if (k > 0) { t[k] = 0; char cwd[400]; if (getcwd(cwd, 400) && !strncmp(t, cwd, strlen(cwd))) n++; } } return n; }
}
int main(int argc, char** argv)
{
    if (argc < 4 || !table().count(argv[1])) { fprintf(stderr, "unknown entry\n"); return 79; }
    { std::ifstream f(argv[3]); std::string n, h; while (f >> n >> h) { In i; i.name = n; for (size_t k = 0; k + 1 < h.size(); k += 2) i.bytes.push_back((char)std::stoi(h.substr(k, 2), nullptr, 16)); ins.push_back(i); } }
    try { table()[argv[1]](atoi(argv[2])); }
    catch (const std::exception& e) { printf("VH EXCEPTION %s\n", e.what()); quit(73); }
    catch (...) { printf("VH EXCEPTION ?\n"); quit(73); }
    printf("VH END\n"); quit(0);
}
