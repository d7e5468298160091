/* Guarded array memory: every numpy array of at least MINSZ bytes gets its own pages between inaccessible pages.
 *
 * mode 0: the end of the array touches the inaccessible page behind it (catches accesses beyond the end)
 * mode 1: the array starts right after an inaccessible page (catches accesses before the start)
 * Fresh memory is filled with a pattern (not for calloc), the slack next to the array with a canary that is
 * inspected when the array is released, and released pages become inaccessible (use after free).
 */
#define _GNU_SOURCE
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <pthread.h>
#include <sys/mman.h>

#define PG 4096UL
#define NBLK 15000
#define MINSZ 8
#define CANARY 0xA5

typedef struct { char *base, *user; size_t size, pages; int live; } blk;
static blk blks[NBLK];
static int nblk, cursor, mode, on, pattern;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long n_alloc, n_plain, n_bad, n_freed;
static char bad_msg[256];
/* address -> block, open addressing on the user pointer */
#define HS 65536
static int hidx[HS];

static unsigned hsh(void *p) { size_t a = (size_t)p; return (unsigned)((a >> 3) ^ (a >> 15) ^ (a >> 27)) & (HS - 1); }

static void hrebuild(void) {
    memset(hidx, 0xff, sizeof hidx);
    for (int i = 0; i < nblk; i++)
        if (blks[i].live) {
            unsigned h = hsh(blks[i].user);
            while (hidx[h] >= 0) h = (h + 1) & (HS - 1);
            hidx[h] = i;
        }
}

static int tomb;
static int hfind(void *p, unsigned *pos) {
    unsigned h = hsh(p);
    while (hidx[h] != -1) {
        if (hidx[h] >= 0 && blks[hidx[h]].live && blks[hidx[h]].user == p) { *pos = h; return hidx[h]; }
        h = (h + 1) & (HS - 1);
    }
    return -1;
}

static int slot(void) {
    if (nblk < NBLK) return nblk++;
    for (int k = 0; k < NBLK; k++) {
        cursor = (cursor + 1) % NBLK;
        if (!blks[cursor].live) {
            if (blks[cursor].base) munmap(blks[cursor].base, (blks[cursor].pages + 2) * PG);
            blks[cursor].base = 0;
            return cursor;
        }
    }
    return -1;
}

static void *galloc(size_t sz, int zero) {
    if (!on || sz < MINSZ) return NULL;
    pthread_mutex_lock(&mu);
    void *r = NULL;
    int i = slot();
    if (i >= 0) {
        size_t pages = (sz + PG - 1) / PG;
        char *b = mmap(NULL, (pages + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (b != MAP_FAILED && mprotect(b + PG, pages * PG, PROT_READ | PROT_WRITE) == 0) {
            size_t room = pages * PG, al = (sz + 7) & ~7UL;
            char *u = b + PG + (mode ? 0 : room - al);
            memset(b + PG, CANARY, room);
            memset(u, zero ? 0 : pattern, sz);
            blks[i] = (blk){b, u, sz, pages, 1};
            unsigned h = hsh(u);
            while (hidx[h] >= 0) h = (h + 1) & (HS - 1);
            hidx[h] = i;
            n_alloc++;
            r = u;
        } else {
            if (b != MAP_FAILED) munmap(b, (pages + 2) * PG);
            blks[i].live = 0; blks[i].base = 0;
        }
    }
    if (!r) n_plain++;
    pthread_mutex_unlock(&mu);
    return r;
}

/* 1 when p was ours */
static int gfree(void *p) {
    unsigned pos;
    pthread_mutex_lock(&mu);
    int i = nblk ? hfind(p, &pos) : -1;
    if (i >= 0) {
        blk *b = &blks[i];
        unsigned char *lo = (unsigned char *)b->base + PG, *hi = lo + b->pages * PG, *u = (unsigned char *)b->user;
        for (unsigned char *q = lo; q < hi; q++) {
            if (q == u) { q = u + b->size; if (q >= hi) break; }
            if (*q != CANARY) {
                if (!n_bad++) snprintf(bad_msg, sizeof bad_msg, "byte %ld of an array of %zu bytes", (long)(q - u), b->size);
                break;
            }
        }
        mprotect(lo, b->pages * PG, PROT_NONE);
        madvise(lo, b->pages * PG, MADV_DONTNEED);
        b->live = 0;
        hidx[pos] = -2;
        n_freed++;
        if (++tomb > 8000) { hrebuild(); tomb = 0; }
    }
    pthread_mutex_unlock(&mu);
    return i >= 0;
}

static void *f_malloc(void *c, size_t n) { void *p = galloc(n, 0); return p ? p : malloc(n ? n : 1); }
static void *f_calloc(void *c, size_t n, size_t m) { void *p = galloc(n * m, 1); return p ? p : calloc(n ? n : 1, m ? m : 1); }
static void f_free(void *c, void *p, size_t n) { if (p && !gfree(p)) free(p); }
static void *f_realloc(void *c, void *p, size_t n) {
    unsigned pos;
    pthread_mutex_lock(&mu);
    int i = p && nblk ? hfind(p, &pos) : -1;
    size_t old = i >= 0 ? blks[i].size : 0;
    pthread_mutex_unlock(&mu);
    if (i < 0) return realloc(p, n ? n : 1);
    void *q = f_malloc(c, n);
    if (q) { memcpy(q, p, old < n ? old : n); gfree(p); }
    return q;
}

static PyDataMem_Handler handler = {"fence", 1, {NULL, f_malloc, f_calloc, f_realloc, f_free}};
static PyObject *prev;

static PyObject *install(PyObject *s, PyObject *a) {
    if (!PyArg_ParseTuple(a, "ii", &mode, &pattern)) return NULL;
    hrebuild();
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_XDECREF(prev);
    prev = old;
    on = 1;
    Py_RETURN_NONE;
}
static PyObject *pause_(PyObject *s, PyObject *a) { on = 0; Py_RETURN_NONE; }
static PyObject *resume_(PyObject *s, PyObject *a) { on = 1; Py_RETURN_NONE; }
static PyObject *sweep(PyObject *s, PyObject *a) { /* canaries of the arrays still alive */
    pthread_mutex_lock(&mu);
    for (int i = 0; i < nblk; i++)
        if (blks[i].live) {
            blk *b = &blks[i];
            unsigned char *lo = (unsigned char *)b->base + PG, *hi = lo + b->pages * PG, *u = (unsigned char *)b->user;
            for (unsigned char *q = lo; q < hi; q++) {
                if (q == u) { q = u + b->size; if (q >= hi) break; }
                if (*q != CANARY) { if (!n_bad++) snprintf(bad_msg, sizeof bad_msg, "byte %ld of a live array of %zu bytes", (long)(q - u), b->size); break; }
            }
        }
    pthread_mutex_unlock(&mu);
    Py_RETURN_NONE;
}
static PyObject *stats(PyObject *s, PyObject *a) { return Py_BuildValue("llls", n_alloc, n_plain, n_bad, bad_msg); }
static PyObject *addr_live(PyObject *s, PyObject *a) {
    unsigned long long p; unsigned pos;
    if (!PyArg_ParseTuple(a, "K", &p)) return NULL;
    return PyBool_FromLong(hfind((void *)p, &pos) >= 0);
}
static PyMethodDef M[] = {{"install", install, METH_VARARGS, ""}, {"pause", pause_, METH_NOARGS, ""}, {"resume", resume_, METH_NOARGS, ""},
                          {"sweep", sweep, METH_NOARGS, ""}, {"stats", stats, METH_NOARGS, ""}, {"guarded", addr_live, METH_VARARGS, ""}, {0}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "fence", 0, -1, M};
PyMODINIT_FUNC PyInit_fence(void) { import_array(); return PyModule_Create(&mod); }
