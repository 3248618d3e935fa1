// Stand-in for the part of MPI the code uses.  The processes are fibers of one thread; a send may be kept by the
// library or wait for its receiver, as the standard allows; which of the processes goes on is chosen by the driver.
#ifndef VP_MPI_H
#define VP_MPI_H
#include <cstddef>
#include <cstdint>
#include <climits>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <ucontext.h>
typedef std::ptrdiff_t MPI_Aint;
struct vp_mpi_block { MPI_Aint off; char kind; int size; int count; };
struct vp_mpi_type { std::vector<vp_mpi_block> blocks; bool committed, freed, basic; };
typedef vp_mpi_type *MPI_Datatype;
typedef int MPI_Comm;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int bytes; };
#define MPI_COMM_WORLD 0
#define MPI_BOTTOM ((void *)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-3)
namespace vp { namespace mpi {
inline vp_mpi_type basic(char k, int s) { return vp_mpi_type{{{0, k, s, 1}}, true, false, true}; }
inline vp_mpi_type t_double = basic('D', 8), t_int = basic('I', 4), t_unsigned = basic('U', 4), t_ulong = basic('L', 8), t_ullong = basic('X', 8),
                   t_ushort = basic('H', 2), t_uchar = basic('C', 1), t_byte = basic('B', 1), t_char = basic('c', 1), t_long = basic('l', 8), t_float = basic('F', 4);
struct Fatal { std::string what; };
struct Msg { int src, dst, tag; std::vector<char> data; std::string sig; bool kept, taken; };
struct Rank { ucontext_t ctx; std::vector<char> stack; std::function<bool()> ready; bool done = false; std::string err; };
struct State {
  int n = 0, cur = -1; ucontext_t main; std::vector<Rank *> ranks; std::deque<Msg *> box; std::vector<int> bar; uint64_t rnd = 1; int keep = 1;
  std::function<void(int)> body; std::function<void(const std::string &)> log;
};
inline State S;
inline unsigned random() { S.rnd = S.rnd * 6364136223846793005ull + 1442695040888963407ull; return S.rnd >> 33; }
inline void wait(std::function<bool()> f) { Rank *r = S.ranks[S.cur]; r->ready = f; swapcontext(&r->ctx, &S.main); }
inline void say(const std::string &s) { if (S.log) S.log(s); }
inline void error(const std::string &w) { throw Fatal{w}; }
inline void entry() {
  int me = S.cur; Rank *r = S.ranks[me];
  try { S.body(me); } catch (Fatal &f) { r->err = f.what; } catch (std::exception &e) { r->err = std::string("exception: ") + e.what(); } catch (...) { r->err = "aborted"; }
  r->done = true; swapcontext(&r->ctx, &S.main);
}
// runs body(rank) of n processes; keep: 1 - every send is kept by the library, 0 - every send waits, 2 - at will.  "" or what went wrong
inline std::string run(int n, std::function<void(int)> body, int keep, uint64_t seed) {
  S.n = n; S.body = body; S.keep = keep; S.rnd = seed * 2654435761u + 12345; S.box.clear(); S.bar.assign(n, 0);
  S.ranks.clear();
  for (int i = 0; i < n; ++i) { Rank *r = new Rank; r->stack.resize(1 << 20); r->ready = [] { return true; }; getcontext(&r->ctx); r->ctx.uc_stack.ss_sp = r->stack.data(); r->ctx.uc_stack.ss_size = r->stack.size(); r->ctx.uc_link = 0; makecontext(&r->ctx, entry, 0); S.ranks.push_back(r); }
  for (;;) {
    std::vector<int> can; bool all = true; std::string stuck;
    for (int i = 0; i < n; ++i) { if (!S.ranks[i]->err.empty()) return "process " + std::to_string(i) + ": " + S.ranks[i]->err; if (S.ranks[i]->done) continue; all = false; if (S.ranks[i]->ready()) can.push_back(i); else stuck += " " + std::to_string(i); }
    if (all) break;
    if (can.empty()) { S.cur = -1; return "deadlock of processes" + stuck; }
    S.cur = can[random() % can.size()]; swapcontext(&S.main, &S.ranks[S.cur]->ctx);
  }
  S.cur = -1; for (auto r : S.ranks) delete r; S.ranks.clear();
  for (auto m : S.box) if (!m->taken) return "a message from " + std::to_string(m->src) + " to " + std::to_string(m->dst) + " is never received";
  return "";
}
inline void check(MPI_Datatype t) { if (!t || t->freed) error("datatype is not valid"); if (!t->committed) error("datatype is not committed"); }
template <class F> void walk(const void *buf, int count, MPI_Datatype t, F f) {
  MPI_Aint ext = 0; for (auto &b : t->blocks) ext = std::max<MPI_Aint>(ext, b.off + (MPI_Aint)b.size * b.count);
  if (count > 1) { int al = 1; for (auto &b : t->blocks) al = std::max(al, b.size); ext = (ext + al - 1) / al * al; }
  for (int c = 0; c < count; ++c) for (auto &b : t->blocks) f((char *)buf + b.off + c * ext, b);
}
inline std::string signature(const void *buf, int count, MPI_Datatype t) {
  std::string s; char k = 0; long n = 0; auto flush = [&] { if (n) s += k + std::to_string(n); };
  walk(buf, count, t, [&](char *, vp_mpi_block &b) { if (b.count == 0) return; if (b.kind != k) { flush(); k = b.kind; n = 0; } n += b.count; }); flush(); return s;
}
}}
#define MPI_DOUBLE (&vp::mpi::t_double)
#define MPI_FLOAT (&vp::mpi::t_float)
#define MPI_INT (&vp::mpi::t_int)
#define MPI_UNSIGNED (&vp::mpi::t_unsigned)
#define MPI_LONG (&vp::mpi::t_long)
#define MPI_UNSIGNED_LONG (&vp::mpi::t_ulong)
#define MPI_UNSIGNED_LONG_LONG (&vp::mpi::t_ullong)
#define MPI_UNSIGNED_SHORT (&vp::mpi::t_ushort)
#define MPI_UNSIGNED_CHAR (&vp::mpi::t_uchar)
#define MPI_BYTE (&vp::mpi::t_byte)
#define MPI_CHAR (&vp::mpi::t_char)
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = vp::mpi::S.cur; return 0; }
inline int MPI_Comm_size(MPI_Comm, int *n) { *n = vp::mpi::S.n; return 0; }
inline int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
inline int MPI_Type_create_struct(int n, const int *len, const MPI_Aint *off, const MPI_Datatype *ty, MPI_Datatype *out) {
  auto t = new vp_mpi_type{{}, false, false, false};
  for (int i = 0; i < n; ++i) { if (!ty[i]) vp::mpi::error("no datatype in a struct"); for (auto b : ty[i]->blocks) { if (ty[i]->basic) t->blocks.push_back({off[i], b.kind, b.size, len[i]}); else for (int c = 0; c < len[i]; ++c) t->blocks.push_back({off[i] + b.off, b.kind, b.size, b.count}); } }
  *out = t; return 0;
}
inline int MPI_Type_commit(MPI_Datatype *t) { if (!*t || (*t)->freed) vp::mpi::error("datatype is not valid"); (*t)->committed = true; return 0; }
inline int MPI_Type_free(MPI_Datatype *t) { if (!*t || (*t)->freed) vp::mpi::error("datatype freed twice"); (*t)->freed = true; *t = 0; return 0; }
namespace vp { namespace mpi {
inline Msg *post(const void *buf, int count, MPI_Datatype t, int dst, int tag, bool wait_for) {
  check(t); if (dst < 0 || dst >= S.n) error("no process " + std::to_string(dst));
  auto m = new Msg{S.cur, dst, tag, {}, signature(buf, count, t), false, false};
  walk(buf, count, t, [&](char *p, vp_mpi_block &b) { m->data.insert(m->data.end(), p, p + (size_t)b.size * b.count); });
  m->kept = !wait_for || S.keep == 1 || (S.keep == 2 && random() % 2);
  say("\"e\":\"send\",\"rank\":" + std::to_string(S.cur) + ",\"peer\":" + std::to_string(dst) + ",\"tag\":" + std::to_string(tag) + ",\"sig\":\"" + m->sig + "\",\"kept\":" + (m->kept ? "true" : "false"));
  S.box.push_back(m); return m;
}
inline Msg *find(int src, int dst, int tag) { for (auto m : S.box) if (!m->taken && m->dst == dst && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag)) return m; return 0; }
inline void take(Msg *m, void *buf, int count, MPI_Datatype t, MPI_Status *st) {
  int me = S.cur; std::string sig = signature(buf, count, t);
  say("\"e\":\"recv\",\"rank\":" + std::to_string(me) + ",\"peer\":" + std::to_string(m->src) + ",\"tag\":" + std::to_string(m->tag) + ",\"sig\":\"" + sig + "\",\"kept\":false");
  size_t at = 0, room = 0; walk(buf, count, t, [&](char *, vp_mpi_block &b) { room += (size_t)b.size * b.count; });
  if (room < m->data.size()) error("message longer than the place to receive it");
  if (sig != m->sig) error("sent " + m->sig + " received as " + sig);
  walk(buf, count, t, [&](char *p, vp_mpi_block &b) { size_t k = (size_t)b.size * b.count; if (at + k <= m->data.size()) memcpy(p, &m->data[at], k); at += k; });
  if (st) *st = MPI_Status{m->src, m->tag, 0, (int)m->data.size()};
  m->taken = true; while (!S.box.empty() && S.box.front()->taken) S.box.pop_front();   // kept for its sender to see
}
}}
inline int MPI_Send(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm) {
  using namespace vp::mpi; if (dst == MPI_PROC_NULL) return 0;
  Msg *m = post(buf, count, t, dst, tag, true); wait([m] { return m->kept || m->taken; }); return 0;
}
inline int MPI_Recv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status *st) {
  using namespace vp::mpi; if (src == MPI_PROC_NULL) return 0;
  check(t); int me = S.cur; wait([=] { return find(src, me, tag) != 0; }); take(find(src, me, tag), buf, count, t, st); return 0;
}
inline int MPI_Sendrecv(const void *sb, int sc, MPI_Datatype st, int dst, int stag, void *rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *stat) {
  using namespace vp::mpi; Msg *m = 0; if (dst != MPI_PROC_NULL) m = post(sb, sc, st, dst, stag, true);
  MPI_Recv(rb, rc, rt, src, rtag, c, stat); if (m) wait([m] { return m->kept || m->taken; }); return 0;
}
inline int MPI_Barrier(MPI_Comm) {
  using namespace vp::mpi; int g = ++S.bar[S.cur];
  say("\"e\":\"bar\",\"rank\":" + std::to_string(S.cur) + ",\"peer\":0,\"tag\":0,\"sig\":\"\",\"kept\":false");
  wait([g] { for (int b : S.bar) if (b < g) return false; return true; }); return 0;
}
namespace vp { namespace mpi { struct Req { bool send; Msg *m; void *buf; int count; MPI_Datatype t; int src, tag; bool over; }; } }
typedef vp::mpi::Req *MPI_Request;
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
inline int MPI_Isend(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request *r) {
  using namespace vp::mpi; *r = dst == MPI_PROC_NULL ? 0 : new Req{true, post(buf, count, t, dst, tag, false), 0, 0, 0, 0, 0, false}; return 0;
}
inline int MPI_Irecv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request *r) {
  using namespace vp::mpi; *r = src == MPI_PROC_NULL ? 0 : new Req{false, 0, buf, count, t, src, tag, false}; return 0;
}
inline int MPI_Wait(MPI_Request *r, MPI_Status *st) {   // receives are matched in the order they are waited for
  using namespace vp::mpi; Req *q = *r; if (!q) return 0;
  if (q->send) { if (S.keep != 1) wait([q] { return S.keep == 2 || q->m->taken; }); }
  else MPI_Recv(q->buf, q->count, q->t, q->src, q->tag, MPI_COMM_WORLD, st);
  *r = 0; return 0;
}
inline int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {  // receives first: waiting for a send must not hold them back
  for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) if (r[i] && r[i]->send == (k == 1)) MPI_Wait(&r[i], st ? st + i : 0); return 0;
}
inline int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status *st) {
  using namespace vp::mpi; int me = S.cur; wait([=] { return find(src, me, tag) != 0; }); Msg *m = find(src, me, tag); if (st) *st = MPI_Status{m->src, m->tag, 0, (int)m->data.size()}; return 0;
}
inline int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { int k = 0; for (auto &b : t->blocks) k += b.size * b.count; *n = k ? st->bytes / k : 0; return 0; }
inline int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *out) { MPI_Aint z = 0; return MPI_Type_create_struct(1, &n, &z, &o, out); }
inline int MPI_Ssend(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm) {
  using namespace vp::mpi; if (dst == MPI_PROC_NULL) return 0; Msg *m = post(buf, count, t, dst, tag, false); wait([m] { return m->taken; }); return 0;
}
#endif
