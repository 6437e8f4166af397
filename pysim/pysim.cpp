// Simulated memory for the Python module: every allocation of the module (C++) and of the interpreter goes through
// here, is counted, checked and - while a call is armed - made to fail where the case says so.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unistd.h>

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
}

namespace {

struct Plan { int dom; int kind; uint64_t a, b; };     // dom 0 C++, 1 Python, 2 both; kind 0: the a-th to (a+b-1)-th, 1: sizes from a
Plan plans[16];
int nplans;
bool armed;
uint64_t cnt[3], fired[2], bytes_asked;
uint64_t live_c, live_c_bytes, serial;
int64_t live_p, live_p_bytes;
char problem[256];
uint64_t total[2];
uint64_t site_hash;

bool fail(int dom, size_t size) {
    total[dom]++;
    if (!armed) return false;
    cnt[dom]++;
    cnt[2]++;
    for (int i = 0; i < nplans; i++) {
        Plan& p = plans[i];
        if (p.dom != 2 && p.dom != dom) continue;
        if (p.kind == 0 ? (cnt[p.dom] >= p.a && cnt[p.dom] < p.a + p.b) : (size >= p.a)) {
            fired[dom]++;
            return true;
        }
    }
    return false;
}

// ---- C++ blocks: a list, canaries on both sides, a quarantine ----
struct Hdr { uint64_t magic; size_t size; Hdr *prev, *next; uint64_t serial; uint64_t kind; uint64_t pad; uint64_t canary; };
static_assert(sizeof(Hdr) == 64);
const uint64_t LIVE = 0x6e696b6c69766521ull, DEAD = 0x6e696b6465616421ull, CAN = 0xc0dec0de5a5aa5a5ull;
Hdr head = {0, 0, &head, &head, 0, 0, 0, 0};
const int QN = 512;
Hdr* quarantine[QN];
int qpos;

// addresses that are ours, open addressing
const size_t TN = 1 << 20;
void** table;
size_t slot(void* p) { return ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 44; }
void tadd(void* p) {
    if (!table) table = (void**)__real_calloc(TN, sizeof(void*));
    size_t i = slot(p);
    while (table[i] && table[i] != (void*)1) i = (i + 1) & (TN - 1);
    table[i] = p;
}
bool thas(void* p, bool remove) {
    if (!table) return false;
    size_t i = slot(p);
    while (table[i]) {
        if (table[i] == p) { if (remove) table[i] = (void*)1; return true; }
        i = (i + 1) & (TN - 1);
    }
    return false;
}

void report(const char* what, Hdr* h) {
    if (!problem[0]) snprintf(problem, sizeof problem, "%s (block of %zu bytes, allocation %llu)", what, h ? h->size : 0, h ? (unsigned long long)h->serial : 0ull);
}
void check_block(Hdr* h, bool dead) {
    if (h->canary != CAN) return report("bytes before a block were overwritten", h);
    unsigned char* e = (unsigned char*)(h + 1) + h->size;
    for (int i = 0; i < 16; i++) if (e[i] != 0xc7) return report("bytes after a block were overwritten", h);
    if (dead) for (size_t i = 0; i < h->size; i++) if (((unsigned char*)(h + 1))[i] != 0xdd) return report("a released block was written", h);
}
void* get(size_t n, uint64_t kind, bool zero) {
    if (n > ((size_t)1 << 40)) return nullptr;
    Hdr* h = (Hdr*)__real_malloc(sizeof(Hdr) + n + 16);
    if (!h) return nullptr;
    *h = Hdr{LIVE, n, head.prev, &head, ++serial, kind, 0, CAN};
    head.prev->next = h;
    head.prev = h;
    memset(h + 1, zero ? 0 : 0xa5, n);
    memset((char*)(h + 1) + n, 0xc7, 16);
    live_c++;
    live_c_bytes += n;
    tadd(h + 1);
    return h + 1;
}
void put(void* p, uint64_t kind) {
    if (!p) return;
    if (!thas(p, true)) {
        for (int i = 0; i < QN; i++) if (quarantine[i] && (void*)(quarantine[i] + 1) == p) return report("a block was released twice", quarantine[i]);
        if (kind) return report("delete of memory that new did not deliver", nullptr);
        return __real_free(p);
    }
    Hdr* h = (Hdr*)p - 1;
    check_block(h, false);
    if (h->kind != kind) report(kind ? "delete of a block from malloc or of the other new" : "free of a block from new", h);
    h->prev->next = h->next;
    h->next->prev = h->prev;
    h->magic = DEAD;
    live_c--;
    live_c_bytes -= h->size;
    memset(p, 0xdd, h->size);
    if (h->size > (1 << 16)) { __real_free(h); return; }
    Hdr*& q = quarantine[qpos++ % QN];
    if (q) { check_block(q, true); __real_free(q); }
    q = h;
}
void sweep() {
    for (Hdr* h = head.next; h != &head; h = h->next) check_block(h, false);
    for (int i = 0; i < QN; i++) if (quarantine[i]) check_block(quarantine[i], true);
}
void* newc(size_t n, uint64_t kind, bool nothrow) {
    void* p = fail(0, n) ? nullptr : get(n, kind, false);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}

// ---- Python blocks ----
PyMemAllocatorEx base[3];
void* pm(void* c, size_t n) { if (fail(1, n)) return nullptr; auto* b = (PyMemAllocatorEx*)c; void* p = b->malloc(b->ctx, n); if (p) live_p++; return p; }
void* pc(void* c, size_t m, size_t n) { if (fail(1, m * n)) return nullptr; auto* b = (PyMemAllocatorEx*)c; void* p = b->calloc(b->ctx, m, n); if (p) live_p++; return p; }
void* pr(void* c, void* o, size_t n) { if (fail(1, n)) return nullptr; auto* b = (PyMemAllocatorEx*)c; void* p = b->realloc(b->ctx, o, n); if (p && !o) live_p++; return p; }
void pf(void* c, void* p) { auto* b = (PyMemAllocatorEx*)c; if (p) live_p--; b->free(b->ctx, p); }

PyObject* py_install(PyObject*, PyObject*) {
    PyMemAllocatorDomain d[3] = {PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
    for (int i = 0; i < 3; i++) {
        PyMem_GetAllocator(d[i], &base[i]);
        PyMemAllocatorEx a = {&base[i], pm, pc, pr, pf};
        PyMem_SetAllocator(d[i], &a);
    }
    Py_RETURN_NONE;
}

// call(callable, args, ((dom, kind, a, b), ...)) -> (ok, result or (type name, message), c++ allocations, python allocations, c++ failed, python failed)
PyObject* py_call(PyObject*, PyObject* args) {
    PyObject *f, *a, *pl;
    if (!PyArg_ParseTuple(args, "OOO", &f, &a, &pl)) return nullptr;
    nplans = 0;
    for (Py_ssize_t i = 0; i < PyTuple_Size(pl) && i < 16; i++) {
        Plan& p = plans[nplans++];
        unsigned long long x, y;
        if (!PyArg_ParseTuple(PyTuple_GetItem(pl, i), "iiKK", &p.dom, &p.kind, &x, &y)) return nullptr;
        p.a = x;
        p.b = y;
    }
    memset(cnt, 0, sizeof cnt);
    memset(fired, 0, sizeof fired);
    armed = true;
    PyObject* r = PyObject_Call(f, a, nullptr);
    armed = false;
    bool ok = r != nullptr;
    if (!ok) {
        PyObject* e = PyErr_GetRaisedException();
        PyObject* s = PyObject_Str(e);
        if (!s) { PyErr_Clear(); s = PyUnicode_FromString("?"); }
        r = Py_BuildValue("(sN)", Py_TYPE(e)->tp_name, s);
        Py_XDECREF(e);
        if (!r) return nullptr;
    }
    return Py_BuildValue("(ONKKKK)", ok ? Py_True : Py_False, r, cnt[0], cnt[1], fired[0], fired[1]);
}
PyObject* py_check(PyObject*, PyObject*) {
    sweep();
    if (problem[0]) { PyObject* s = PyUnicode_FromString(problem); problem[0] = 0; return s; }
    Py_RETURN_NONE;
}
PyObject* py_live(PyObject*, PyObject*) {
    long long p = live_p;                              // before this call's own objects
    return Py_BuildValue("(KKLKK)", (unsigned long long)live_c, (unsigned long long)live_c_bytes, p, (unsigned long long)total[0], (unsigned long long)total[1]);
}
PyMethodDef methods[] = {{"install", py_install, METH_NOARGS, ""}, {"call", py_call, METH_VARARGS, ""}, {"check", py_check, METH_NOARGS, ""}, {"live", py_live, METH_NOARGS, ""}, {nullptr, nullptr, 0, nullptr}};
PyModuleDef mod = {PyModuleDef_HEAD_INIT, "simctl", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr};

}  // namespace

extern "C" {
PyMODINIT_FUNC PyInit_simctl(void) { return PyModule_Create(&mod); }

void* __wrap_malloc(size_t n) { return fail(0, n) ? nullptr : get(n, 0, false); }
void* __wrap_calloc(size_t m, size_t n) { size_t t; if (__builtin_mul_overflow(m, n, &t)) return nullptr; return fail(0, t) ? nullptr : get(t, 0, true); }
void __wrap_free(void* p) { put(p, 0); }
void* __wrap_realloc(void* p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!thas(p, false)) return __real_realloc(p, n);
    if (fail(0, n)) return nullptr;
    void* q = get(n, 0, false);
    if (!q) return nullptr;
    size_t o = ((Hdr*)p - 1)->size;
    memcpy(q, p, o < n ? o : n);
    put(p, 0);
    return q;
}
void* __wrap_aligned_alloc(size_t, size_t n) { return __wrap_malloc(n); }
void* __wrap__Znwm(size_t n) { return newc(n, 1, false); }
void* __wrap__Znam(size_t n) { return newc(n, 2, false); }
void* __wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t&) { return newc(n, 1, true); }
void* __wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t&) { return newc(n, 2, true); }
void* __wrap__ZnwmSt11align_val_t(size_t n, size_t) { return newc(n, 1, false); }
void* __wrap__ZnamSt11align_val_t(size_t n, size_t) { return newc(n, 2, false); }
void __wrap__ZdlPv(void* p) { put(p, 1); }
void __wrap__ZdaPv(void* p) { put(p, 2); }
void __wrap__ZdlPvm(void* p, size_t) { put(p, 1); }
void __wrap__ZdaPvm(void* p, size_t) { put(p, 2); }
void __wrap__ZdlPvRKSt9nothrow_t(void* p, const std::nothrow_t&) { put(p, 1); }
void __wrap__ZdaPvRKSt9nothrow_t(void* p, const std::nothrow_t&) { put(p, 2); }
void __wrap__ZdlPvSt11align_val_t(void* p, size_t) { put(p, 1); }
void __wrap__ZdlPvmSt11align_val_t(void* p, size_t, size_t) { put(p, 1); }
void __wrap__ZdaPvSt11align_val_t(void* p, size_t) { put(p, 2); }
}
