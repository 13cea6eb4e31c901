// Bugs the explorer must find (and one correct program it must not flag).
// KIND: mc
#include "mc.hh"
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <atomic>
static void race() { int x = 0; std::thread t([&] { x = 1; }); x = 2; t.join(); }
static void norace() { int x = 0; std::mutex m; std::thread t([&] { std::lock_guard<std::mutex> g(m); x++; }); { std::lock_guard<std::mutex> g(m); x++; } t.join(); mc::outcome(std::to_string(x)); }
static void deadlock() { std::mutex a, b; std::thread t([&] { std::lock_guard<std::mutex> g(a); std::lock_guard<std::mutex> h(b); }); { std::lock_guard<std::mutex> h(b); std::lock_guard<std::mutex> g(a); } t.join(); }
static void lostwake() { std::mutex m; std::condition_variable cv; std::atomic<bool> f{false}; std::thread t([&] { f = true; cv.notify_one(); }); { std::unique_lock<std::mutex> l(m); while (!f) cv.wait(l); } t.join(); }
static void atomicity() { std::mutex m; int x = 0; auto f = [&] { int v; { std::lock_guard<std::mutex> g(m); v = x; } { std::lock_guard<std::mutex> g(m); x = v + 1; } }; std::thread t(f); f(); t.join(); mc::check(x == 2, "lost-update", std::to_string(x)); }
static void uaf() { auto *p = new int(1); std::mutex m; std::thread t([&] { std::lock_guard<std::mutex> g(m); if (p) { delete p; p = nullptr; } }); int *q; { std::lock_guard<std::mutex> g(m); q = p; } { std::lock_guard<std::mutex> g(m); if (q) mc::outcome(std::to_string(*q)); } t.join(); }
static void noif() { std::mutex m; std::condition_variable cv; bool f = false; std::thread t([&] { { std::lock_guard<std::mutex> g(m); f = true; } cv.notify_one(); }); { std::unique_lock<std::mutex> l(m); if (!f) cv.wait(l); mc::check(f, "spurious", "woken without condition"); } t.join(); }
static void timed() { std::mutex m; std::condition_variable cv; bool f = false; std::thread t([&] { { std::lock_guard<std::mutex> g(m); f = true; } cv.notify_one(); }); { std::unique_lock<std::mutex> l(m); bool r = cv.wait_for(l, std::chrono::milliseconds(5), [&] { return f; }); mc::outcome(r ? "set" : "timeout"); } t.join(); }
static void fut() { std::promise<int> p; auto f = p.get_future(); std::thread t([&] { p.set_value(7); }); mc::outcome(std::to_string(f.get())); t.join(); }
static void asy() { auto f = std::async(std::launch::async, [] { return 3; }); auto g = std::async(std::launch::async, []() -> int { throw 1; }); int r = f.get(); try { g.get(); } catch (int) { r += 10; } mc::outcome(std::to_string(r)); }
struct Sing { int v = 5; static Sing &get() { static Sing s; return s; } };
static void guard() { std::thread t([&] { mc::outcome(std::to_string(Sing::get().v)); }); mc::outcome("m" + std::to_string(Sing::get().v)); t.join(); }
static Sing *gp = nullptr; static std::mutex gm;
static void dcl() { auto f = [] { if (!gp) { std::lock_guard<std::mutex> g(gm); if (!gp) gp = new Sing; } return gp->v; }; std::thread t(f); f(); t.join(); }
static void once() { std::once_flag o; int n = 0; auto f = [&] { std::call_once(o, [&] { n++; }); mc::check(n == 1, "once", "once"); }; std::thread t(f); f(); t.join(); mc::outcome("ok"); }
static void shm() { std::shared_mutex m; int x = 0; std::thread t([&] { std::unique_lock<std::shared_mutex> l(m); x++; }); std::thread t2([&] { std::shared_lock<std::shared_mutex> l(m); mc::outcome(std::to_string(x)); }); t.join(); t2.join(); }
static void shm_bad() { std::shared_mutex m; int x = 0; std::thread t([&] { std::shared_lock<std::shared_mutex> l(m); x++; }); std::thread t2([&] { std::shared_lock<std::shared_mutex> l(m); x++; }); t.join(); t2.join(); }
static void sharedptr() { auto p = std::make_shared<int>(4); std::thread t([p] { mc::outcome(std::to_string(*p)); }); p.reset(); t.join(); }
static void spin() { std::atomic<bool> f{false}; std::thread t([&] { f = true; }); while (!f) std::this_thread::yield(); t.join(); mc::outcome("done"); }
static void strrace() { std::string s = "a"; std::thread t([&] { s = "a longer string than the small buffer holds"; }); mc::outcome(std::to_string(s.size())); t.join(); }
static void term() { std::thread t([] { throw 3; }); t.join(); }
int main(int argc, char **argv) {
  return mc::run(argc, argv, "SELF", {{"race", race}, {"norace", norace}, {"deadlock", deadlock}, {"lostwake", lostwake}, {"atomicity", atomicity}, {"uaf", uaf}, {"noif", noif, 2, 2, true}, {"timed", timed}, {"fut", fut}, {"async", asy}, {"guard", guard}, {"dcl", dcl}, {"once", once}, {"shm", shm}, {"shm_bad", shm_bad}, {"sharedptr", sharedptr}, {"spin", spin}, {"strrace", strrace}, {"term", term}}, "");
}
