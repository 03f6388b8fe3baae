// Drives the thread pool of the tree with random programs and checks, online,
// that every accepted task ran exactly once, that every future delivers, and
// that the destructor waited.  One line of counters on success; otherwise a
// line "VIOL <key> <detail>" and exit status 3.
#include <ThreadPool.h>

#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

using Clock = std::chrono::steady_clock;

static void fail(const char* key, const std::string& detail)
{
  std::printf("VIOL %s %s\n", key, detail.c_str());
  std::fflush(stdout);
  std::_Exit(3);
}

struct Rng
{
  uint64_t s;
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return next() % n; }
};

static void nap(Rng& r, unsigned maxUs)
{
  if (!maxUs)
    return;
  auto k = r.below(4);
  if (k == 0)
    return;
  if (k == 1)
    std::this_thread::yield();
  else
    std::this_thread::sleep_for(std::chrono::microseconds(r.below(maxUs)));
}

struct Slot
{
  std::atomic<int> started{ 0 }, finished{ 0 };
  int plain = 0; // written by the task, read after its future: needs ordering
};

struct Error : std::runtime_error
{
  int id;
  Error(int i) : std::runtime_error("task"), id(i) {}
};

struct Task
{
  int id;
  int kind; // 0 value, 1 throws, 2 void, 3 moved result, 4 arguments, 5 nested
  std::future<int> i;
  std::future<void> v;
  std::future<std::unique_ptr<int>> u;
  Slot* slot = nullptr;
};

struct Counters
{
  std::atomic<long> accepted{ 0 }, threw{ 0 }, nested{ 0 }, refused{ 0 },
    parallel{ 0 }, waited{ 0 }, before{ 0 };
};

static Counters counters;
static std::atomic<int> running{ 0 };

struct Guard
{
  Slot* s;
  Guard(Slot* x) : s(x)
  {
    s->started++;
    if (++running > 1)
      counters.parallel++;
  }
  ~Guard()
  {
    running--;
    s->finished++;
  }
};

template <class F>
static void expect(const char* what, F& f, std::chrono::seconds limit)
{
  if (!f.valid())
    fail("future-invalid", what);
  if (f.wait_for(limit) != std::future_status::ready)
    fail("never-ran", what);
}

// Waits for the task and checks what its future delivers.
static void deliver(Task& t, bool ready)
{
  auto limit = std::chrono::seconds(ready ? 0 : 40);
  std::string name = "task of kind " + std::to_string(t.kind);
  if (t.kind == 2) {
    expect(name.c_str(), t.v, limit);
    t.v.get();
  } else if (t.kind == 3) {
    expect(name.c_str(), t.u, limit);
    auto p = t.u.get();
    if (!p || *p != t.id)
      fail("wrong-result", name);
  } else {
    expect(name.c_str(), t.i, limit);
    bool threw = false;
    try {
      int x = t.i.get();
      if (t.kind != 1 && x != t.id * 3 + t.kind)
        fail("wrong-result", name + ": " + std::to_string(x));
    } catch (const Error& e) {
      threw = true;
      if (e.id != t.id)
        fail("wrong-exception", name);
    } catch (...) {
      fail("wrong-exception", name);
    }
    if (threw != (t.kind == 1))
      fail(threw ? "made-up-exception" : "lost-exception", name);
    if (threw)
      counters.threw++;
  }
  if (t.slot->plain != t.id + 1)
    fail("effect-not-visible", name);
  if (t.slot->started != 1)
    fail("not-once", name + ": " + std::to_string(t.slot->started.load()));
}

struct Nested
{
  std::mutex m;
  std::deque<std::pair<std::unique_ptr<Slot>, std::future<int>>> all;
};

static void submit(ThreadPool& pool, Task& t, Rng& r, unsigned us,
                   Nested& nested, bool mayRefuse)
{
  Slot* s = t.slot;
  int id = t.id, kind = t.kind;
  uint64_t seed = r.next();
  auto body = [s, id, us, seed]() {
    Guard g(s);
    Rng q{ seed };
    nap(q, us);
    s->plain = id + 1;
    nap(q, us);
  };
  if (kind == 2) {
    t.v = pool.enqueue(body);
  } else if (kind == 3) {
    t.u = pool.enqueue([body, id]() {
      body();
      return std::unique_ptr<int>(new int(id));
    });
  } else if (kind == 4) {
    t.i = pool.enqueue(
      [body](int a, const std::string& b, std::shared_ptr<int> c) {
        body();
        return a + static_cast<int>(b.size()) + *c - *c;
      },
      id * 3, std::string("four"), std::make_shared<int>(7));
  } else if (kind == 5) {
    t.i = pool.enqueue([body, id, kind, us, seed, &pool, &nested]() {
      body();
      Rng q{ seed ^ 0x55 };
      int n = 1 + static_cast<int>(q.below(3));
      for (int k = 0; k < n; ++k) {
        std::unique_ptr<Slot> slot(new Slot);
        Slot* p = slot.get();
        try {
          auto f = pool.enqueue([p, us, q, id]() mutable {
            Guard g(p);
            nap(q, us);
            p->plain = id + 1;
            return id;
          });
          counters.nested++;
          std::lock_guard<std::mutex> lock(nested.m);
          nested.all.emplace_back(std::move(slot), std::move(f));
        } catch (const std::runtime_error&) {
          // The pool is being destroyed: it was not accepted
          counters.refused++;
          if (p->started)
            fail("ran-though-refused", "nested");
        }
      }
      return id * 3 + kind;
    });
  } else {
    t.i = pool.enqueue([body, id, kind]() -> int {
      body();
      if (kind == 1)
        throw Error(id);
      return id * 3 + kind;
    });
  }
  counters.accepted++;
  (void)mayRefuse;
}

int main(int argc, char** argv)
{
  if (argc < 8)
    return 2;
  Rng top{ std::strtoull(argv[1], 0, 10) };
  const int workers = std::atoi(argv[2]), producers = std::atoi(argv[3]),
            perProducer = std::atoi(argv[4]), rounds = std::atoi(argv[5]);
  const unsigned us = std::atoi(argv[6]);
  const std::string mode = argv[7];
  long tasksTotal = 0;
  for (int round = 0; round < rounds; ++round) {
    std::vector<std::vector<Task>> tasks(producers);
    std::deque<Slot> slots;
    std::vector<Rng> rngs;
    int id = 0;
    for (int p = 0; p < producers; ++p) {
      rngs.push_back(Rng{ top.next() });
      for (int k = 0; k < perProducer; ++k) {
        slots.emplace_back();
        Task t;
        t.id = id++;
        t.kind = static_cast<int>(top.below(6));
        t.slot = &slots.back();
        tasks[p].push_back(std::move(t));
      }
    }
    Nested nested;
    const bool idleFirst = top.below(2);
    {
      auto pool = std::unique_ptr<ThreadPool>(new ThreadPool(workers));
      if (idleFirst) {
        Rng q{ top.next() };
        nap(q, us * 4);
      }
      std::vector<std::thread> threads;
      for (int p = 0; p < producers; ++p) {
        threads.emplace_back([&, p]() {
          Rng& r = rngs[p];
          for (auto& t : tasks[p]) {
            submit(*pool, t, r, us, nested, false);
            if (mode == "each" || (mode == "mixed" && r.below(3) == 0)) {
              // Alone: nothing else wakes up a worker
              deliver(t, false);
              counters.waited++;
              t.slot = nullptr;
            }
            if (mode == "mixed")
              nap(r, us);
          }
          if (mode == "wait")
            for (auto& t : tasks[p]) {
              deliver(t, false);
              counters.waited++;
              t.slot = nullptr;
            }
        });
      }
      for (auto& t : threads)
        t.join();
      Rng q{ top.next() };
      if (top.below(2))
        nap(q, us);
      for (auto& s : slots)
        if (!s.finished)
          counters.before++;
      pool.reset();
    }
    // Everything that was accepted ran, exactly once, before the end
    if (running != 0)
      fail("destroyed-while-running", std::to_string(running.load()));
    for (auto& s : slots)
      if (s.started != 1 || s.finished != 1)
        fail("not-once-at-end", std::to_string(s.started.load()) + " " +
                                  std::to_string(s.finished.load()));
    for (auto& list : tasks)
      for (auto& t : list)
        if (t.slot)
          deliver(t, true);
    for (auto& n : nested.all) {
      if (n.first->started != 1 || n.first->finished != 1)
        fail("nested-not-once", std::to_string(n.first->started.load()));
      expect("nested", n.second, std::chrono::seconds(0));
      if (n.second.get() + 1 != n.first->plain)
        fail("wrong-result", "nested");
    }
    tasksTotal += static_cast<long>(slots.size() + nested.all.size());
  }
  std::printf("OK tasks=%ld accepted=%ld threw=%ld nested=%ld refused=%ld "
              "parallel=%ld waited=%ld unfinished-at-destruction=%ld\n",
              tasksTotal, counters.accepted.load(), counters.threw.load(),
              counters.nested.load(), counters.refused.load(),
              counters.parallel.load(), counters.waited.load(),
              counters.before.load());
  return 0;
}
