// MPI for the ranks of one communicator, each a process of its own, connected
// by stream sockets that the parent made: VF_MPI="rank size fd0 fd1 ...".
//
// It is the monitor of the communication at the same time.  A message that
// does not fit what the receiver asked for, a collective operation in which
// the ranks disagree, a call before MPI_Init or from another thread than the
// one that called it, messages nobody received: each is printed as
// "MPI-MONITOR: ..." and ends the process with status 77.
//
// VF_MPI_DELAY="seed microseconds": random delays before the operations.
#include "bigmpi.h"

#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <random>
#include <string>
#include <sys/socket.h>
#include <unistd.h>
#include <vector>

namespace {
int g_rank = -1, g_size = 0;
bool g_init = false, g_final = false;
std::vector<int> g_fds;
pthread_t g_thread;
std::mt19937_64 g_random;
long g_delay = 0;
uint64_t g_ops = 0, g_bytes = 0, g_sequence = 0;
std::vector<char> g_probed_valid;

enum Kind : uint32_t { P2P = 1, COLL, RESULT, FIN };

struct Head
{
  uint32_t magic, kind;
  int32_t op, root, tag, type;
  uint64_t bytes, sequence;
};
std::vector<Head> g_probed;

[[noreturn]] void fail(const char* format, ...)
{
  char text[600];
  va_list a;
  va_start(a, format);
  vsnprintf(text, sizeof(text), format, a);
  va_end(a);
  fprintf(stderr, "MPI-MONITOR: rank %d: %s\n", g_rank, text);
  fflush(stderr);
  _exit(77);
}

void writeAll(int peer, const void* data, size_t n)
{
  auto p = static_cast<const char*>(data);
  while (n) {
    auto k = send(g_fds[peer], p, n, MSG_NOSIGNAL);
    if (k < 0) {
      if (errno == EINTR) {
        continue;
      }
      fprintf(stderr, "MPI-PEER: rank %d: rank %d is gone\n", g_rank, peer);
      _exit(78);
    }
    p += k;
    n -= k;
  }
  g_bytes += n;
}

void readAll(int peer, void* data, size_t n)
{
  auto p = static_cast<char*>(data);
  while (n) {
    auto k = recv(g_fds[peer], p, n, 0);
    if (k < 0 && errno == EINTR) {
      continue;
    }
    if (k <= 0) {
      fprintf(stderr, "MPI-PEER: rank %d: rank %d is gone\n", g_rank, peer);
      _exit(78);
    }
    p += k;
    n -= k;
  }
}

void enter(const char* name)
{
  if (!g_init) {
    fail("%s before MPI_Init", name);
  }
  if (g_final) {
    fail("%s after MPI_Finalize", name);
  }
  if (!pthread_equal(g_thread, pthread_self())) {
    fail("%s in another thread than MPI_Init, which allows one only", name);
  }
  g_ops++;
  if (g_delay) {
    usleep(g_random() % (g_delay + 1));
  }
}

size_t bytesOf(const char* name, long long count, MPI_Datatype type)
{
  int size = type & 255;
  if (size != 1 && size != 2 && size != 4 && size != 8) {
    fail("%s: unknown data type %d", name, type);
  }
  if (count < 0) {
    fail("%s: count %lld", name, count);
  }
  return static_cast<size_t>(count) * size;
}

void comm(const char* name, MPI_Comm c)
{
  if (c != MPI_COMM_WORLD) {
    fail("%s: unknown communicator %d", name, c);
  }
}

void peer(const char* name, int p)
{
  if (p < 0 || p >= g_size) {
    fail("%s: there is no rank %d", name, p);
  }
}

void put(int to, Kind kind, int op, int root, int tag, int type,
         const void* data, size_t n)
{
  Head h{ 0x4d504921, kind, op, root, tag, type, n, g_sequence };
  writeAll(to, &h, sizeof(h));
  writeAll(to, data, n);
  g_bytes += n;
}

Head head(int from)
{
  if (g_probed_valid[from]) {
    g_probed_valid[from] = 0;
    return g_probed[from];
  }
  Head h;
  readAll(from, &h, sizeof(h));
  if (h.magic != 0x4d504921) {
    fail("the stand-in lost its place");
  }
  return h;
}

const char* names[] = { "?",         "MPI_Barrier",   "MPI_Bcast",
                        "MPI_Gather", "MPI_Gatherv",  "MPI_Allgather",
                        "MPI_Allgatherv", "MPI_Scatter", "MPI_Reduce",
                        "MPI_Allreduce" };
enum Op { NONE, BARRIER, BCAST, GATHER, GATHERV, ALLGATHER, ALLGATHERV, SCATTER,
          REDUCE, ALLREDUCE };

Head collective(int from, Kind kind, Op op, int root, int type)
{
  auto h = head(from);
  if (h.kind == FIN) {
    fail("%s, but rank %d has finished", names[op], from);
  }
  if (h.kind == P2P) {
    fail("%s, but rank %d has sent %llu bytes that nobody received", names[op],
         from, (unsigned long long)h.bytes);
  }
  if (h.kind != kind || h.op != op || h.root != root ||
      h.sequence != g_sequence) {
    fail("%s (number %llu, root %d), but rank %d calls %s (number %llu, root "
         "%d)", names[op], (unsigned long long)g_sequence, root, from,
         names[h.op], (unsigned long long)h.sequence, h.root);
  }
  if (h.type != type) {
    fail("%s of type %x, but rank %d of type %x", names[op], type, from,
         h.type);
  }
  return h;
}

// Everything goes through the root (rank 0 for the ones without)
void gatherTo(Op op, int root, const void* send, size_t n, int type,
              char* recv, const std::vector<size_t>& sizes,
              const std::vector<size_t>& offsets)
{
  if (g_rank != root) {
    put(root, COLL, op, root, 0, type, send, n);
    return;
  }
  for (int r = 0; r < g_size; r++) {
    if (r == root) {
      if (n != sizes[r]) {
        fail("%s: rank %d sends %zu bytes, the root expects %zu", names[op], r,
             n, sizes[r]);
      }
      if (n && send != MPI_IN_PLACE) {
        memcpy(recv + offsets[r], send, n);
      }
      continue;
    }
    auto h = collective(r, COLL, op, root, type);
    if (h.bytes != sizes[r]) {
      fail("%s: rank %d sends %llu bytes, the root expects %zu", names[op], r,
           (unsigned long long)h.bytes, sizes[r]);
    }
    readAll(r, recv + offsets[r], h.bytes);
  }
}

void spread(Op op, int root, void* data, size_t n, int type)
{
  if (g_rank == root) {
    for (int r = 0; r < g_size; r++) {
      if (r != root) {
        put(r, RESULT, op, root, 0, type, data, n);
      }
    }
    return;
  }
  auto h = collective(root, RESULT, op, root, type);
  if (h.bytes != n) {
    fail("%s: the root sends %llu bytes, this rank expects %zu", names[op],
         (unsigned long long)h.bytes, n);
  }
  readAll(root, data, n);
}

template <typename T>
void fold(char* into, const char* from, size_t n, MPI_Op op)
{
  auto a = reinterpret_cast<T*>(into);
  auto b = reinterpret_cast<const T*>(from);
  for (size_t i = 0; i < n; i++) {
    a[i] = op == MPI_SUM ? a[i] + b[i]
                         : op == MPI_MAX ? (a[i] < b[i] ? b[i] : a[i])
                                         : (b[i] < a[i] ? b[i] : a[i]);
  }
}

void reduceTo(Op which, int root, const void* send, void* recv, int count,
              MPI_Datatype type, MPI_Op op)
{
  auto n = bytesOf(names[which], count, type);
  std::vector<size_t> sizes(g_size, n), offsets(g_size);
  for (int i = 0; i < g_size; i++) {
    offsets[i] = i * n;
  }
  std::vector<char> all(n * g_size + 1);
  if (send == MPI_IN_PLACE) {
    send = recv;
  }
  gatherTo(which, root, send, n, type, all.data(), sizes, offsets);
  if (g_rank != root) {
    return;
  }
  for (int i = 1; i < g_size; i++) {
    auto b = all.data() + i * n;
    switch (type) {
      case MPI_INT: case MPI_INT32_T:
        fold<int32_t>(all.data(), b, count, op); break;
      case MPI_UNSIGNED: case MPI_UINT32_T:
        fold<uint32_t>(all.data(), b, count, op); break;
      case MPI_LONG: case MPI_INT64_T: case MPI_LONG_LONG: case MPI_COUNT:
        fold<int64_t>(all.data(), b, count, op); break;
      case MPI_UNSIGNED_LONG: case MPI_UINT64_T: case MPI_UNSIGNED_LONG_LONG:
        fold<uint64_t>(all.data(), b, count, op); break;
      case MPI_DOUBLE: fold<double>(all.data(), b, count, op); break;
      case MPI_FLOAT: fold<float>(all.data(), b, count, op); break;
      default: fold<uint8_t>(all.data(), b, count, op);
    }
  }
  memcpy(recv, all.data(), n);
}
} // namespace

extern "C" {

int MPI_Init(int*, char***)
{
  if (g_init) {
    fail("MPI_Init a second time");
  }
  auto e = getenv("VF_MPI");
  std::string text = e ? e : "0 1 -1";
  char* p = &text[0];
  g_rank = strtol(p, &p, 10);
  g_size = strtol(p, &p, 10);
  for (int i = 0; i < g_size; i++) {
    g_fds.push_back(strtol(p, &p, 10));
  }
  g_probed.resize(g_size);
  g_probed_valid.resize(g_size);
  e = getenv("VF_MPI_DELAY");
  if (e) {
    char* q;
    g_random.seed(strtol(e, &q, 10) * 1000 + g_rank);
    g_delay = strtol(q, nullptr, 10);
  }
  g_thread = pthread_self();
  g_init = true;
  return MPI_SUCCESS;
}

int MPI_Init_thread(int* a, char*** b, int, int* provided)
{
  if (provided) {
    *provided = MPI_THREAD_SINGLE;
  }
  return MPI_Init(a, b);
}

int MPI_Initialized(int* flag)
{
  *flag = g_init;
  return MPI_SUCCESS;
}

int MPI_Finalized(int* flag)
{
  *flag = g_final;
  return MPI_SUCCESS;
}

int MPI_Abort(MPI_Comm, int code)
{
  fail("MPI_Abort(%d)", code);
}

int MPI_Comm_rank(MPI_Comm c, int* r)
{
  enter("MPI_Comm_rank");
  comm("MPI_Comm_rank", c);
  *r = g_rank;
  return MPI_SUCCESS;
}

int MPI_Comm_size(MPI_Comm c, int* r)
{
  enter("MPI_Comm_size");
  comm("MPI_Comm_size", c);
  *r = g_size;
  return MPI_SUCCESS;
}

int MPIX_Send_x(const void* data, MPI_Count n, MPI_Datatype type, int to,
                int tag, MPI_Comm c)
{
  enter("MPI_Send");
  comm("MPI_Send", c);
  peer("MPI_Send", to);
  if (to == g_rank) {
    fail("MPI_Send to itself");
  }
  put(to, P2P, NONE, 0, tag, type, data, bytesOf("MPI_Send", n, type));
  return MPI_SUCCESS;
}

int MPIX_Recv_x(void* data, MPI_Count n, MPI_Datatype type, int from, int tag,
                MPI_Comm c, MPI_Status* status)
{
  enter("MPI_Recv");
  comm("MPI_Recv", c);
  peer("MPI_Recv", from);
  if (from == g_rank) {
    fail("MPI_Recv from itself");
  }
  auto room = bytesOf("MPI_Recv", n, type);
  auto h = head(from);
  if (h.kind != P2P) {
    fail("MPI_Recv, but rank %d %s %s", from,
         h.kind == FIN ? "has finished" : "calls",
         h.kind == FIN ? "" : names[h.op]);
  }
  if ((tag != MPI_ANY_TAG && h.tag != tag) || h.type != type) {
    fail("MPI_Recv of tag %d, type %x, but rank %d sent tag %d, type %x", tag,
         type, from, h.tag, h.type);
  }
  if (h.bytes > room) {
    fail("MPI_Recv: the message of rank %d, %llu bytes, does not fit in %zu",
         from, (unsigned long long)h.bytes, room);
  }
  readAll(from, data, h.bytes);
  if (status) {
    *status = { from, h.tag, 0, (long long)h.bytes };
  }
  return MPI_SUCCESS;
}

int MPI_Send(const void* d, int n, MPI_Datatype t, int to, int tag, MPI_Comm c)
{
  return MPIX_Send_x(d, n, t, to, tag, c);
}

int MPI_Recv(void* d, int n, MPI_Datatype t, int from, int tag, MPI_Comm c,
             MPI_Status* s)
{
  return MPIX_Recv_x(d, n, t, from, tag, c, s);
}

int MPI_Probe(int from, int tag, MPI_Comm c, MPI_Status* status)
{
  enter("MPI_Probe");
  comm("MPI_Probe", c);
  peer("MPI_Probe", from);
  auto h = head(from);
  if (h.kind != P2P || (tag != MPI_ANY_TAG && h.tag != tag)) {
    fail("MPI_Probe of tag %d finds something else from rank %d", tag, from);
  }
  g_probed[from] = h;
  g_probed_valid[from] = 1;
  if (status) {
    *status = { from, h.tag, 0, (long long)h.bytes };
  }
  return MPI_SUCCESS;
}

int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n)
{
  *n = s->bytes / (t & 255);
  return MPI_SUCCESS;
}

int MPIX_Bcast_x(void* data, MPI_Count n, MPI_Datatype type, int root,
                 MPI_Comm c)
{
  enter("MPI_Bcast");
  comm("MPI_Bcast", c);
  peer("MPI_Bcast", root);
  g_sequence++;
  spread(BCAST, root, data, bytesOf("MPI_Bcast", n, type), type);
  return MPI_SUCCESS;
}

int MPI_Bcast(void* d, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  return MPIX_Bcast_x(d, n, t, root, c);
}

int MPI_Barrier(MPI_Comm c)
{
  enter("MPI_Barrier");
  comm("MPI_Barrier", c);
  g_sequence++;
  std::vector<size_t> zero(g_size);
  char x;
  gatherTo(BARRIER, 0, &x, 0, MPI_BYTE, &x, zero, zero);
  spread(BARRIER, 0, &x, 0, MPI_BYTE);
  return MPI_SUCCESS;
}

int MPI_Gather(const void* send, int n, MPI_Datatype t, void* recv, int m,
               MPI_Datatype u, int root, MPI_Comm c)
{
  enter("MPI_Gather");
  comm("MPI_Gather", c);
  peer("MPI_Gather", root);
  g_sequence++;
  std::vector<size_t> sizes(g_size), offsets(g_size);
  if (g_rank == root) {
    for (int i = 0; i < g_size; i++) {
      sizes[i] = bytesOf("MPI_Gather", m, u);
      offsets[i] = i * sizes[i];
    }
    if (send == MPI_IN_PLACE) {
      n = m;
      t = u;
    }
  }
  gatherTo(GATHER, root, send, bytesOf("MPI_Gather", n, t), t,
           static_cast<char*>(recv), sizes, offsets);
  return MPI_SUCCESS;
}

int MPI_Gatherv(const void* send, int n, MPI_Datatype t, void* recv,
                const int* counts, const int* displs, MPI_Datatype u, int root,
                MPI_Comm c)
{
  enter("MPI_Gatherv");
  comm("MPI_Gatherv", c);
  peer("MPI_Gatherv", root);
  g_sequence++;
  std::vector<size_t> sizes(g_size), offsets(g_size);
  if (g_rank == root) {
    for (int i = 0; i < g_size; i++) {
      sizes[i] = bytesOf("MPI_Gatherv", counts[i], u);
      offsets[i] = bytesOf("MPI_Gatherv", displs[i], u);
    }
    if (send == MPI_IN_PLACE) {
      n = counts[root];
      t = u;
    }
  }
  gatherTo(GATHERV, root, send, bytesOf("MPI_Gatherv", n, t), t,
           static_cast<char*>(recv), sizes, offsets);
  return MPI_SUCCESS;
}

int MPI_Scatter(const void* send, int n, MPI_Datatype t, void* recv, int m,
                MPI_Datatype u, int root, MPI_Comm c)
{
  enter("MPI_Scatter");
  comm("MPI_Scatter", c);
  peer("MPI_Scatter", root);
  g_sequence++;
  auto own = bytesOf("MPI_Scatter", m, u);
  if (g_rank == root) {
    auto each = bytesOf("MPI_Scatter", n, t);
    for (int r = 0; r < g_size; r++) {
      auto p = static_cast<const char*>(send) + r * each;
      if (r != root) {
        put(r, RESULT, SCATTER, root, 0, t, p, each);
      } else if (recv != MPI_IN_PLACE) {
        memcpy(recv, p, each);
      }
    }
    return MPI_SUCCESS;
  }
  auto h = collective(root, RESULT, SCATTER, root, u);
  if (h.bytes != own) {
    fail("MPI_Scatter: the root sends %llu bytes, this rank expects %zu",
         (unsigned long long)h.bytes, own);
  }
  readAll(root, recv, own);
  return MPI_SUCCESS;
}

int MPI_Allgather(const void* send, int n, MPI_Datatype t, void* recv, int m,
                  MPI_Datatype u, MPI_Comm c)
{
  enter("MPI_Allgather");
  comm("MPI_Allgather", c);
  g_sequence++;
  auto each = bytesOf("MPI_Allgather", m, u);
  std::vector<size_t> sizes(g_size, each), offsets(g_size);
  for (int i = 0; i < g_size; i++) {
    offsets[i] = i * each;
  }
  if (send == MPI_IN_PLACE) {
    send = static_cast<char*>(recv) + offsets[g_rank];
    n = m;
    t = u;
    if (g_rank == 0) {
      send = MPI_IN_PLACE;
    }
  }
  gatherTo(ALLGATHER, 0, send, bytesOf("MPI_Allgather", n, t), t,
           static_cast<char*>(recv), sizes, offsets);
  spread(ALLGATHER, 0, recv, each * g_size, u);
  return MPI_SUCCESS;
}

int MPI_Allgatherv(const void* send, int n, MPI_Datatype t, void* recv,
                   const int* counts, const int* displs, MPI_Datatype u,
                   MPI_Comm c)
{
  enter("MPI_Allgatherv");
  comm("MPI_Allgatherv", c);
  g_sequence++;
  std::vector<size_t> sizes(g_size), offsets(g_size), packed(g_size);
  size_t total = 0;
  for (int i = 0; i < g_size; i++) {
    sizes[i] = bytesOf("MPI_Allgatherv", counts[i], u);
    offsets[i] = bytesOf("MPI_Allgatherv", displs[i], u);
    packed[i] = total;
    total += sizes[i];
  }
  if (send == MPI_IN_PLACE) {
    send = static_cast<char*>(recv) + offsets[g_rank];
    n = counts[g_rank];
    t = u;
  }
  std::vector<char> all(total + 1);
  gatherTo(ALLGATHERV, 0, send, bytesOf("MPI_Allgatherv", n, t), t, all.data(),
           sizes, packed);
  spread(ALLGATHERV, 0, all.data(), total, u);
  for (int i = 0; i < g_size; i++) {
    if (sizes[i]) {
      memcpy(static_cast<char*>(recv) + offsets[i], all.data() + packed[i],
             sizes[i]);
    }
  }
  return MPI_SUCCESS;
}

int MPI_Reduce(const void* send, void* recv, int n, MPI_Datatype t, MPI_Op op,
               int root, MPI_Comm c)
{
  enter("MPI_Reduce");
  comm("MPI_Reduce", c);
  peer("MPI_Reduce", root);
  g_sequence++;
  reduceTo(REDUCE, root, send, recv, n, t, op);
  return MPI_SUCCESS;
}

int MPI_Allreduce(const void* send, void* recv, int n, MPI_Datatype t,
                  MPI_Op op, MPI_Comm c)
{
  enter("MPI_Allreduce");
  comm("MPI_Allreduce", c);
  g_sequence++;
  reduceTo(ALLREDUCE, 0, send, recv, n, t, op);
  spread(ALLREDUCE, 0, recv, bytesOf("MPI_Allreduce", n, t), t);
  return MPI_SUCCESS;
}

// Called at the end of a rank: all of them must have come to their end, and
// every message must have been received.
int MPI_Finalize(void)
{
  if (!g_init || g_final) {
    return MPI_SUCCESS;
  }
  g_thread = pthread_self();
  for (int r = 0; r < g_size; r++) {
    if (r != g_rank) {
      put(r, FIN, NONE, 0, 0, 0, nullptr, 0);
    }
  }
  for (int r = 0; r < g_size; r++) {
    if (r == g_rank) {
      continue;
    }
    auto h = head(r);
    if (h.kind != FIN) {
      fail("at the end: rank %d %s", r,
           h.kind == P2P ? "has sent a message that nobody received"
                         : names[h.op]);
    }
  }
  g_final = true;
  return MPI_SUCCESS;
}

void vf_mpi_stats(unsigned long long* out)
{
  out[0] = g_ops;
  out[1] = g_bytes;
  out[2] = g_sequence;
}
}
