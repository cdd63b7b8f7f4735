// Stand-in for the QMP message-passing interface: the nodes of a machine grid are simulated one after the other in one process.
// A node's program is run from its start; a receive or collective whose contributions are not known yet delivers zeroes and marks
// the run unclean, as does a contribution produced by an unclean run. Every node is run again until its run is clean, so the values
// of the last run of each node are those of a parallel execution. run_nodes() below also checks that the nodes' communication
// calls match (no message is left over, no node waits for ever under rendezvous semantics, collectives agree in kind and size).
#pragma once
#include <cstdlib>
#include <cstring>
#include <cstdio>
extern "C" long sym_param(const char* name, long dflt);
extern "C" void sym_assert(int cond, const char* msg);
extern "C" void sym_fail(const char* msg);
typedef int QMP_bool_t; typedef unsigned int QMP_u32_t;
enum { QMP_FALSE = 0, QMP_TRUE = 1 };
enum QMP_status_t { QMP_SUCCESS = 0, QMP_ERROR = 1, QMP_NOMEM_ERR = 2, QMP_INVALID_ARG = 3 };
enum QMP_thread_level_t { QMP_THREAD_SINGLE, QMP_THREAD_FUNNELED, QMP_THREAD_SERIALIZED, QMP_THREAD_MULTIPLE };
enum QMP_ictype_t { QMP_SWITCH = 0, QMP_GRID = 1, QMP_MESH = 2, QMP_FATTREE = 3 };
enum { QMP_MEM_NONCACHE = 1, QMP_MEM_COMMS = 2, QMP_MEM_FAST = 4, QMP_MEM_DEFAULT = 2 };
struct QMP_mem_t { void* p; };
struct qmp_msgmem { void* p; int n; };
typedef qmp_msgmem* QMP_msgmem_t;
struct qmp_handle { int kind, peer; qmp_msgmem* m; qmp_handle* part[8]; int parts, at; bool started; };   // kind 0 send, 1 receive, 2 several
typedef qmp_handle* QMP_msghandle_t;
struct QmpNet {
  enum { N = 8, M = 2048 };
  struct Msg { char* d; int n; bool dirty; };
  struct Ev { int kind, peer; int size; };            // kind 0 send, 1 receive, 2 send and receive together (peer: to, from packed), 3.. collective
  int nodes, me, dims[8], dmul[8], ring; bool init, clean; int declared;
  Msg p2p[N][N][M], rt[N][M], coll[N][M]; int np2p[N][N], ncoll[N]; bool done[N];
  int cs[N], cr[N], cc; int got[N][N];
  Ev ev[N][M]; int nev[N];
  void event(int kind, int peer, int size) { if (nev[me] >= M) sym_fail("stub: too many events"); ev[me][nev[me]++] = Ev{kind, peer, size}; }
  void put(Msg& m, const void* p, int n) { free(m.d); m.d = (char*)malloc(n ? n : 1); memcpy(m.d, p, n); m.n = n; m.dirty = !clean; }
  bool get(Msg& m, void* p, int n) { if (!m.d || m.dirty) clean = false; if (!m.d) { memset(p, 0, n); return false; } if (m.n != n) { if (clean) sym_fail("a received message has another length than the one sent"); memset(p, 0, n); return false; } memcpy(p, m.d, n); return true; }
  void setup() {
    const char* g[] = {"g0", "g1", "g2", "g3"}; int r = (int)sym_param("order", 0); ring = r; nodes = 1;
    for (int i = 0; i < 4; i++) { dims[i] = (int)sym_param(g[i], 1); nodes *= dims[i]; }
    int m = 1; for (int k = 0; k < 4; k++) { int i = r ? 3 - k : k; dmul[i] = m; m *= dims[i]; }
    if (nodes > N) sym_fail("stub: too many nodes");
  }
  int rank(const int* c) { int r = 0; for (int i = 0; i < 4; i++) r += c[i] * dmul[i]; return r; }
  void coords(int r, int* c) { for (int i = 0; i < 4; i++) c[i] = r / dmul[i] % dims[i]; }
  void start_node(int r) { me = r; clean = true; cc = 0; nev[r] = 0; for (int i = 0; i < N; i++) cs[i] = cr[i] = 0; }
  // a collective: every node contributes n bytes; afterwards node i's contribution is all(i)
  int contribute(int kind, const void* p, int n) { event(3 + kind, 0, n); if (cc >= M) sym_fail("stub: too many collectives"); put(coll[me][cc], p, n); return cc++; }
  void all(int k, int i, void* p, int n) { get(coll[i][k], p, n); }
  void send(int to, const void* p, int n) { if (to < 0 || to >= nodes || to == me) sym_fail("a message is sent to a node that does not exist or to oneself"); put(p2p[me][to][cs[to]++], p, n); }
  void recv(int from, void* p, int n) { if (from < 0 || from >= nodes || from == me) sym_fail("a message is awaited from a node that does not exist or from oneself"); get(p2p[from][me][cr[from]++], p, n); }
  // the nodes' call sequences, executed with rendezvous semantics
  void matched() {
    int pos[N]; for (int i = 0; i < nodes; i++) pos[i] = 0; bool sentdone[N] = {}, recvdone[N] = {};
    for (;;) {
      bool moved = false, left = false;
      for (int i = 0; i < nodes; i++) if (pos[i] < nev[i]) {
        left = true; Ev& e = ev[i][pos[i]]; if (e.kind >= 3) continue;
        int to = e.kind == 0 ? e.peer : e.kind == 2 ? e.peer / N : -1, from = e.kind == 1 ? e.peer : e.kind == 2 ? e.peer % N : -1;
        if (to >= 0 && !sentdone[i] && pos[to] < nev[to]) { Ev& f = ev[to][pos[to]]; int ff = f.kind == 1 ? f.peer : f.kind == 2 ? f.peer % N : -1; if (f.kind < 3 && ff == i && !recvdone[to]) { sentdone[i] = recvdone[to] = true; moved = true; } }
        if ((to < 0 || sentdone[i]) && (from < 0 || recvdone[i])) { pos[i]++; sentdone[i] = recvdone[i] = false; moved = true; }
      }
      if (!left) return;
      bool allc = true; for (int i = 0; i < nodes; i++) if (pos[i] >= nev[i] || ev[i][pos[i]].kind < 3) allc = false;
      if (allc) { for (int i = 1; i < nodes; i++) { sym_assert(ev[i][pos[i]].kind == ev[0][pos[0]].kind && ev[i][pos[i]].size == ev[0][pos[0]].size, "the nodes take part in the same collective operation"); } for (int i = 0; i < nodes; i++) pos[i]++; moved = true; }
      if (!moved) { sym_fail("the nodes' communication calls do not match: they wait for each other for ever"); return; }
    }
  }
  // run f(node) as every node of the machine; f returns after its communications, and looks at net.clean before it judges its results
  template<class F> void run_nodes(F f) {
    for (int i = 0; i < nodes; i++) { done[i] = false; for (int k = 0; k < M && coll[i][k].d; k++) { free(coll[i][k].d); coll[i][k].d = nullptr; } for (int j = 0; j < nodes; j++) for (int k = 0; k < M && p2p[i][j][k].d; k++) { free(p2p[i][j][k].d); p2p[i][j][k].d = nullptr; } }
    for (int round = 0; ; round++) {
      bool any = false, progress = false;
      for (int i = 0; i < nodes; i++) if (!done[i]) { start_node(i); f(i); if (clean) { done[i] = true; for (int j = 0; j < nodes; j++) { np2p[i][j] = cs[j]; got[i][j] = cr[j]; } ncoll[i] = cc; } else any = true; }
      if (!any) break;
      if (round > 3 + 2 * nodes && !sym_param("rounds", 0)) { if (round > 200) { sym_fail("a node waits for a message that is never sent"); return; } }
    }
    for (int i = 0; i < nodes; i++) { sym_assert(ncoll[i] == ncoll[0], "all nodes take part in every collective operation"); for (int j = 0; j < nodes; j++) sym_assert(np2p[i][j] == got[j][i], "every message sent is received"); }
    matched();
  }
};
inline QmpNet& qmpnet() { static QmpNet n; return n; }
inline int QMP_get_number_of_nodes() { return qmpnet().nodes; }
inline int QMP_get_node_number() { return qmpnet().me; }
inline int QMP_get_node_number_from(const int* c) { return qmpnet().rank(c); }
inline const int* QMP_get_logical_coordinates_from(int r) { int* c = (int*)malloc(4 * sizeof(int)); qmpnet().coords(r, c); return c; }
inline const int* QMP_get_logical_coordinates() { static int c[4]; qmpnet().coords(qmpnet().me, c); return c; }
inline const int* QMP_get_logical_dimensions() { return qmpnet().dims; }
inline int QMP_get_logical_number_of_dimensions() { return 4; }
inline QMP_status_t QMP_layout_grid(int*, int) { return QMP_SUCCESS; }
inline QMP_status_t QMP_declare_logical_topology(const int*, int) { return QMP_SUCCESS; }
inline QMP_bool_t QMP_is_initialized() { return qmpnet().init; }
inline QMP_status_t QMP_init_msg_passing(int*, char***, QMP_thread_level_t r, QMP_thread_level_t* p) { *p = r; qmpnet().init = true; qmpnet().setup(); return QMP_SUCCESS; }
inline void QMP_finalize_msg_passing() {}
extern "C" inline void QMP_verbose(QMP_bool_t) {}
inline void QMP_abort(int s) { exit(s ? s : 1); }
inline const char* QMP_error_string(QMP_status_t) { return "error"; }
inline QMP_ictype_t QMP_get_msg_passing_type() { return sym_param("gridarch", 0) ? QMP_GRID : QMP_SWITCH; }
inline QMP_mem_t* QMP_allocate_aligned_memory(size_t n, size_t, int) { QMP_mem_t* m = (QMP_mem_t*)malloc(sizeof(QMP_mem_t)); m->p = malloc(n); return m; }
inline void* QMP_get_memory_pointer(QMP_mem_t* m) { return m->p; }
inline void QMP_free_memory(QMP_mem_t* m) { free(m->p); free(m); }
inline QMP_msgmem_t QMP_declare_msgmem(const void* p, size_t n) { qmp_msgmem* m = (qmp_msgmem*)malloc(sizeof(qmp_msgmem)); m->p = (void*)p; m->n = (int)n; return m; }
inline void QMP_free_msgmem(QMP_msgmem_t m) { free(m); }
inline qmp_handle* qmp_new(int kind, int peer, qmp_msgmem* m) { qmp_handle* h = (qmp_handle*)malloc(sizeof(qmp_handle)); memset(h, 0, sizeof *h); h->kind = kind; h->peer = peer; h->m = m; return h; }
inline QMP_msghandle_t QMP_declare_send_to(QMP_msgmem_t m, int node, int) { return qmp_new(0, node, m); }
inline QMP_msghandle_t QMP_declare_receive_from(QMP_msgmem_t m, int node, int) { return qmp_new(1, node, m); }
inline QMP_msghandle_t QMP_declare_multiple(QMP_msghandle_t* h, int n) { qmp_handle* r = qmp_new(2, 0, nullptr); r->parts = n; for (int i = 0; i < n; i++) r->part[i] = h[i]; return r; }
inline void QMP_free_msghandle(QMP_msghandle_t h) { for (int i = 0; i < h->parts; i++) free(h->part[i]); free(h); }
inline QMP_status_t QMP_start(QMP_msghandle_t h) {
  QmpNet& q = qmpnet(); if (h->started) sym_fail("a communication is started twice"); h->started = true;
  if (h->kind == 0) { q.event(0, h->peer, h->m->n); q.send(h->peer, h->m->p, h->m->n); }
  else if (h->kind == 1) { q.event(1, h->peer, h->m->n); memset(h->m->p, 0xA5, h->m->n); }
  else {
    int to = -1, from = -1; for (int i = 0; i < h->parts; i++) { qmp_handle* p = h->part[i]; if (p->kind == 0) { if (to >= 0) sym_fail("stub: two sends together"); to = p->peer; } else { if (from >= 0) sym_fail("stub: two receives together"); from = p->peer; } }
    if (to >= 0 && from >= 0) q.event(2, to * QmpNet::N + from, 0); else if (to >= 0) q.event(0, to, 0); else if (from >= 0) q.event(1, from, 0);
    for (int i = 0; i < h->parts; i++) { qmp_handle* p = h->part[i]; if (p->kind == 0) q.send(p->peer, p->m->p, p->m->n); else memset(p->m->p, 0xA5, p->m->n); }
  }
  return QMP_SUCCESS;
}
inline QMP_status_t QMP_wait(QMP_msghandle_t h) {
  QmpNet& q = qmpnet(); if (!h->started) { sym_fail("a communication is awaited that was not started"); return QMP_ERROR; } h->started = false;
  if (h->kind == 1) q.recv(h->peer, h->m->p, h->m->n);
  else if (h->kind == 2) for (int i = 0; i < h->parts; i++) if (h->part[i]->kind == 1) q.recv(h->part[i]->peer, h->part[i]->m->p, h->part[i]->m->n);
  return QMP_SUCCESS;
}
inline QMP_status_t QMP_broadcast(void* p, size_t n) { QmpNet& q = qmpnet(); int k = q.contribute(0, p, (int)n); q.all(k, 0, p, (int)n); return QMP_SUCCESS; }
template<class T, class F> inline QMP_status_t qmp_reduce(int kind, T* p, int n, F f) {
  QmpNet& q = qmpnet(); int k = q.contribute(kind, p, n * (int)sizeof(T)); T* t = (T*)malloc(n * sizeof(T));
  for (int i = 0; i < q.nodes; i++) { q.all(k, i, t, n * (int)sizeof(T)); for (int j = 0; j < n; j++) p[j] = i ? f(p[j], t[j]) : t[j]; }
  free(t); return QMP_SUCCESS;
}
struct qmp_add { template<class T> T operator()(T a, T b) const { return a + b; } };
struct qmp_max { template<class T> T operator()(T a, T b) const { return a > b ? a : b; } };
struct qmp_min { template<class T> T operator()(T a, T b) const { return a < b ? a : b; } };
inline QMP_status_t QMP_sum_int(int* p) { return qmp_reduce(1, p, 1, qmp_add()); }
inline QMP_status_t QMP_sum_float(float* p) { return qmp_reduce(2, p, 1, qmp_add()); }
inline QMP_status_t QMP_sum_double(double* p) { return qmp_reduce(3, p, 1, qmp_add()); }
inline QMP_status_t QMP_sum_float_array(float* p, int n) { return qmp_reduce(4, p, n, qmp_add()); }
inline QMP_status_t QMP_sum_double_array(double* p, int n) { return qmp_reduce(5, p, n, qmp_add()); }
inline QMP_status_t QMP_max_float(float* p) { return qmp_reduce(6, p, 1, qmp_max()); }
inline QMP_status_t QMP_max_double(double* p) { return qmp_reduce(7, p, 1, qmp_max()); }
inline QMP_status_t QMP_min_float(float* p) { return qmp_reduce(8, p, 1, qmp_min()); }
inline QMP_status_t QMP_min_double(double* p) { return qmp_reduce(9, p, 1, qmp_min()); }
inline QMP_status_t QMP_binary_reduction(void* p, size_t n, void (*f)(void*, void*)) {
  QmpNet& q = qmpnet(); int k = q.contribute(10, p, (int)n); char* t = (char*)malloc(n);
  for (int i = 0; i < q.nodes; i++) { q.all(k, i, t, (int)n); if (i) f(p, t); else memcpy(p, t, n); }
  free(t); return QMP_SUCCESS;
}
inline QMP_status_t QMP_barrier() { QmpNet& q = qmpnet(); char c = 0; int k = q.contribute(11, &c, 1); for (int i = 0; i < q.nodes; i++) q.all(k, i, &c, 1); return QMP_SUCCESS; }
// from QIO: 32-bit words, and routing of bytes between two nodes (the other nodes take no part)
typedef unsigned int n_uint32_t;
inline int DML_route_bytes(char* p, size_t n, int from, int to) {
  QmpNet& q = qmpnet(); if (from == to) return 0;
  if (q.me == from) { q.event(0, to, (int)n); q.send(to, p, (int)n); }
  if (q.me == to) { q.event(1, from, (int)n); q.recv(from, p, (int)n); }
  return 0;
}
