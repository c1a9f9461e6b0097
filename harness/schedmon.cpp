// Drives ThreadPool, SignalingCounter and Event with random task trees and checks what they do.
//   schedmon <seed> <rounds>
#include <condition_variable>
#include <mutex>

#include "core/sched/event.hpp"
#include "core/sched/signaling_counter.hpp"
#include "core/sched/thread_pool.hpp"

#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include <unistd.h>

using namespace Maike;

namespace
{
	std::mutex out_mtx;
	std::atomic<long> violations{0}, n_tasks{0}, n_results{0}, n_except{0}, n_nested{0}, n_waits{0}, n_events{0}, n_kept{0}, n_pools{0}, n_barriers{0}, max_active{0};
	std::string where;

	void fail(char const* fmt, ...)
	{
		char buf[1000];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof(buf), fmt, ap);
		va_end(ap);
		std::lock_guard l{out_mtx};
		if(++violations < 10)
		{
			printf("V %s [%s]\n", buf, where.c_str());
			fflush(stdout);
		}
	}

	struct TestError
	{
		int id;
	};

	enum class Kind
	{
		Void,
		VoidThrow,
		Int,
		IntThrow,
		String,
		Owner
	};

	struct Spec;
	// a capture that counts how often it is destroyed (moved-from ones do not count)
	struct Token
	{
		Spec* s;
		explicit Token(Spec* x): s{x} {}
		Token(Token&& o) noexcept: s{std::exchange(o.s, nullptr)} {}
		Token& operator=(Token&&) = delete;
		~Token();
	};

	struct Spec
	{
		int id{};
		Kind kind{};
		std::vector<Spec*> children;
		unsigned work{};
		int collect{};    // 0: only destroyed, 1: get at once, 2: take at once, 3: get later, 4: take later
		std::atomic<int> runs{0};
		std::atomic<int> gone{0};
		std::optional<Sched::AsyncTaskResult<long>> ri;
		std::optional<Sched::AsyncTaskResult<std::string>> rs;
		std::optional<Sched::AsyncTaskResult<std::unique_ptr<int>>> ro;
	};

	Token::~Token()
	{
		if(s) { ++s->gone; }
	}

	struct World
	{
		std::unique_ptr<Sched::ThreadPool> pool;
		Sched::ThreadPool* raw{};
		int k{};
		std::atomic<int> active{0};
		std::mutex mtx;
		std::set<std::thread::id> workers;
		std::set<std::thread::id> submitters;
		std::deque<Spec> specs;
	};

	long value(int id)
	{
		return id * 2654435761l + 17;
	}
	std::string text(int id)
	{
		return std::string(id % 7 == 0 ? 5000 : 3, static_cast<char>('a' + id % 26)) + std::to_string(id);
	}

	void submit(World& w, Spec& s);

	void work(unsigned w)
	{
		if(w % 5 == 0) { std::this_thread::yield(); }
		else if(w % 5 == 1)
		{
			std::this_thread::sleep_for(std::chrono::microseconds(w % 200));
		}
		else
		{
			for(volatile unsigned k = 0; k < w % 2000; k = k + 1) {}
		}
	}

	void enter(World& w, Spec& s)
	{
		auto n = ++w.active;
		if(n > w.k) { fail("%d tasks are running at the same time in a pool of %d workers", n, w.k); }
		long m = max_active;
		while(n > m && !max_active.compare_exchange_weak(m, n)) {}
		if(++s.runs != 1) { fail("task %d is run %d times", s.id, s.runs.load()); }
		{
			std::lock_guard l{w.mtx};
			w.workers.insert(std::this_thread::get_id());
		}
		++n_tasks;
		work(s.work);
		for(auto c : s.children)
		{
			++n_nested;
			submit(w, *c);
		}
	}

	struct Leave
	{
		World& w;
		~Leave()
		{
			--w.active;
		}
	};

	void submit(World& w, Spec& s)
	{
		auto& p = *w.raw;
		switch(s.kind)
		{
			case Kind::Void:
				p.addTask([t = Token{&s}, &w]() {
					Leave l{w};
					enter(w, *t.s);
				});
				break;
			case Kind::VoidThrow:
				p.addTask([t = Token{&s}, &w]() {
					Leave l{w};
					enter(w, *t.s);
					throw TestError{t.s->id};
				});
				break;
			case Kind::Int:
				p.addTask(
				   [t = Token{&s}, &w]() {
					   Leave l{w};
					   enter(w, *t.s);
					   return value(t.s->id);
				   },
				   *s.ri);
				break;
			case Kind::IntThrow:
				p.addTask(
				   [t = Token{&s}, &w]() -> long {
					   Leave l{w};
					   enter(w, *t.s);
					   throw TestError{t.s->id};
				   },
				   *s.ri);
				break;
			case Kind::String:
				p.addTask(
				   [t = Token{&s}, &w]() {
					   Leave l{w};
					   enter(w, *t.s);
					   return text(t.s->id);
				   },
				   *s.rs);
				break;
			case Kind::Owner:
				p.addTask(
				   [t = Token{&s}, &w]() {
					   Leave l{w};
					   enter(w, *t.s);
					   return std::make_unique<int>(t.s->id);
				   },
				   *s.ro);
				break;
		}
	}

	void collect(Spec& s, bool take)
	{
		try
		{
			switch(s.kind)
			{
				case Kind::Int:
				case Kind::IntThrow:
				{
					long v = take ? s.ri->take() : s.ri->get();
					if(s.kind == Kind::IntThrow) { fail("the exception of task %d is not delivered", s.id); }
					else if(v != value(s.id))
					{
						fail("result of task %d is %ld and not %ld", s.id, v, value(s.id));
					}
					break;
				}
				case Kind::String:
				{
					std::string v = take ? s.rs->take() : s.rs->get();
					if(v != text(s.id)) { fail("text result of task %d is wrong (%s)", s.id, v.substr(0, 30).c_str()); }
					break;
				}
				case Kind::Owner:
				{
					auto v = s.ro->take();
					if(!v || *v != s.id) { fail("owned result of task %d is wrong", s.id); }
					break;
				}
				default: return;
			}
			if(s.runs != 1) { fail("result of task %d is there after %d runs of it", s.id, s.runs.load()); }
			++n_results;
		}
		catch(TestError const& e)
		{
			if(s.kind != Kind::IntThrow || e.id != s.id) { fail("task %d gets the exception of task %d", s.id, e.id); }
			++n_except;
		}
	}

	// all workers are in here at the same time, so everything submitted before has ended
	void barrier(Sched::ThreadPool& p, int k)
	{
		std::atomic<int> in{0}, out{0};
		for(int i = 0; i < k; ++i)
		{
			p.addTask([&in, &out, k]() {
				++in;
				auto t = std::chrono::steady_clock::now() + std::chrono::seconds(60);
				while(in < k)
				{
					std::this_thread::yield();
					if(std::chrono::steady_clock::now() > t)
					{
						fail("only %d of %d workers take a task while others are waiting", in.load(), k);
						in += 1000;
					}
				}
				++out;
			});
		}
		while(out < k) { std::this_thread::sleep_for(std::chrono::microseconds(20)); }
		++n_barriers;
	}

	int poolSize(std::mt19937& rng)
	{
		static int const sizes[] = {1, 1, 2, 3, 4, 8, 16};
		return sizes[rng() % 7];
	}

	void roundTasks(std::mt19937& rng)
	{
		World w;
		w.k = poolSize(rng);
		auto producers = rng() % 5;
		auto nroot = 1 + rng() % (rng() % 4 == 0 ? 400 : 40);
		bool destroy_at_once = rng() % 2;
		bool barrier_first = rng() % 3 == 0;
		where = "pool of " + std::to_string(w.k) + ", " + std::to_string(producers) + " producers";
		std::vector<Spec*> roots;
		std::function<Spec*(int, bool)> make = [&](int depth, bool root) {
			auto& s = w.specs.emplace_back();
			s.id = static_cast<int>(w.specs.size());
			s.kind = static_cast<Kind>(rng() % 6);
			if(s.kind == Kind::VoidThrow && rng() % 2) { s.kind = Kind::Void; }
			s.work = static_cast<unsigned>(rng());
			s.collect = static_cast<int>(rng() % 5);
			if(!root && (s.collect == 1 || s.collect == 2)) { s.collect += 2; }
			switch(s.kind)
			{
				case Kind::Int:
				case Kind::IntThrow: s.ri.emplace(); break;
				case Kind::String: s.rs.emplace(); break;
				case Kind::Owner: s.ro.emplace(); break;
				default: break;
			}
			auto* p = &s;
			if(depth && rng() % 3 == 0)
			{
				auto n = rng() % 4;
				for(unsigned i = 0; i < n; ++i) { p->children.push_back(make(depth - 1, false)); }
			}
			return p;
		};
		for(unsigned i = 0; i < nroot; ++i) { roots.push_back(make(3, true)); }

		w.pool = std::make_unique<Sched::ThreadPool>(ThreadCount{std::to_string(w.k).c_str()});
		w.raw = w.pool.get();
		++n_pools;
		if(w.pool->count() != static_cast<size_t>(w.k)) { fail("a pool of %d workers says it has %zu", w.k, w.pool->count()); }
		if(barrier_first) { barrier(*w.pool, w.k); }
		auto produce = [&](size_t from, size_t step) {
			{
				std::lock_guard l{w.mtx};
				w.submitters.insert(std::this_thread::get_id());
			}
			for(size_t i = from; i < roots.size(); i += step)
			{
				submit(w, *roots[i]);
				if(roots[i]->collect == 1 || roots[i]->collect == 2) { collect(*roots[i], roots[i]->collect == 2); }
			}
		};
		std::vector<std::thread> ts;
		for(unsigned i = 0; i < producers; ++i) { ts.emplace_back(produce, i, producers); }
		if(!producers) { produce(0, 1); }
		for(auto& t : ts) { t.join(); }
		if(!destroy_at_once)
		{
			for(auto& s : w.specs)
			{
				if(s.collect == 3 || s.collect == 4) { collect(s, s.collect == 4); }
			}
		}
		int thrown = 0;
		for(auto& s : w.specs) { thrown += s.kind == Kind::VoidThrow; }
		w.pool.reset();
		for(auto& s : w.specs)
		{
			if(s.runs != 1) { fail("task %d was run %d times when the pool is destroyed", s.id, s.runs.load()); }
			if(s.gone != 1) { fail("task %d was destroyed %d times when the pool is destroyed", s.id, s.gone.load()); }
		}
		if(destroy_at_once)
		{
			for(auto& s : w.specs)
			{
				if(s.collect == 3 || s.collect == 4) { collect(s, s.collect == 4); }
			}
		}
		if(w.workers.size() > static_cast<size_t>(w.k)) { fail("%zu threads run tasks in a pool of %d workers", w.workers.size(), w.k); }
		for(auto id : w.submitters)
		{
			if(w.workers.count(id)) { fail("a task is run by the thread that submits it"); }
		}
	}

	int idOf(std::exception_ptr e)
	{
		if(!e) { return -1; }
		try
		{
			std::rethrow_exception(e);
		}
		catch(TestError const& x)
		{
			return x.id;
		}
		catch(...)
		{
			return -2;
		}
	}

	void roundExceptions(std::mt19937& rng)
	{
		int k = poolSize(rng);
		where = "exceptions in a pool of " + std::to_string(k);
		Sched::ThreadPool p{ThreadCount{std::to_string(k).c_str()}};
		++n_pools;
		int id = 0;
		for(int r = 0; r < 6; ++r)
		{
			if(auto e = p.takeLastException()) { fail("an exception (%d) is kept although none was thrown or it was taken", idOf(e)); }
			int phases = static_cast<int>(rng() % 4), first = -1;
			std::set<int> in_first;
			for(int ph = 0; ph < phases; ++ph)
			{
				auto n = 1 + rng() % 3;
				for(unsigned i = 0; i < n; ++i)
				{
					bool thr = rng() % 3 != 0;
					int my = ++id;
					if(thr && (first == -1 || first == ph))
					{
						if(k > 1 || in_first.empty()) { in_first.insert(my); }
						first = ph;
					}
					p.addTask([thr, my, w = static_cast<unsigned>(rng())]() {
						work(w);
						if(thr) { throw TestError{my}; }
					});
				}
				// a throwing task with a result object must not end up among the kept ones
				Sched::AsyncTaskResult<long> res;
				p.addTask([]() -> long { throw TestError{-77}; }, res);
				try
				{
					(void)res.get();
					fail("exception is lost");
				}
				catch(TestError const& e)
				{
					if(e.id != -77) { fail("result gets the exception of another task"); }
				}
				barrier(p, k);
			}
			barrier(p, k);
			auto got = idOf(p.takeLastException());
			if(in_first.empty() ? got != -1 : in_first.count(got) == 0)
			{ fail("exception %d is kept, not the first one that was thrown (%d)", got, in_first.empty() ? -1 : *in_first.begin()); }
			++n_kept;
		}
	}

	void roundCounter(std::mt19937& rng)
	{
		int k = poolSize(rng);
		auto n = 1 + rng() % 60;
		where = "counter with a pool of " + std::to_string(k) + " and " + std::to_string(n) + " tasks";
		Sched::ThreadPool p{ThreadCount{std::to_string(k).c_str()}};
		++n_pools;
		Sched::SignalingCounter<size_t> c{0};
		for(int r = 0; r < 5; ++r)
		{
			std::atomic<unsigned> done{0};
			long plain = 0;    // written by the tasks under a lock and read without one after the wait
			std::mutex m;
			for(unsigned i = 0; i < n; ++i)
			{
				++c;
				p.addTask([&, w = static_cast<unsigned>(rng())]() {
					std::unique_lock<Sched::SignalingCounter<size_t>> g{c, std::adopt_lock};
					work(w);
					std::lock_guard l{m};
					++plain;
					++done;
				});
			}
			c.wait(0);
			++n_waits;
			if(done != n) { fail("waiting for the counter ends when %u of %u tasks are done", done.load(), static_cast<unsigned>(n)); }
			{
				std::lock_guard l{m};
				if(plain != static_cast<long>(n)) { fail("effect of a task is lost"); }
			}
			if(c != 0 || !(c == 0)) { fail("counter is not zero after waiting for it"); }
		}
		// waiting for another value, which is reached from below or above
		{
			long from = static_cast<long>(rng() % 50), to = static_cast<long>(rng() % 50);
			Sched::SignalingCounter<long> x{from};
			std::atomic<bool> last{from == to};
			std::thread t{[&, seed = static_cast<unsigned>(rng())]() {
				for(long v = from; v != to;)
				{
					work(seed + static_cast<unsigned>(v));
					if(v < to)
					{
						if(++v == to) { last = true; }
						++x;
					}
					else
					{
						if(--v == to) { last = true; }
						--x;
					}
				}
			}};
			x.wait(to);
			if(!last) { fail("waiting for value %ld ends early", to); }
			t.join();
			if(!(x == to) || x != to) { fail("counter has the wrong value at the end"); }
			++n_waits;
		}
	}

	// all of several threads that wait for the same object are woken up
	void roundWaiters(std::mt19937& rng)
	{
		where = "several waiters";
		auto const deadline = std::chrono::steady_clock::now() + std::chrono::seconds(60);
		auto until = [deadline](std::atomic<int> const& n, int want, char const* what, long v) {
			while(n < want)
			{
				std::this_thread::sleep_for(std::chrono::microseconds(20));
				if(std::chrono::steady_clock::now() > deadline)
				{
					fail("%d of %d threads that wait for %s %ld are not woken up", want - n, want, what, v);
					_exit(1);
				}
			}
		};
		{
			long const from = static_cast<long>(rng() % 6), last = static_cast<long>(rng() % 6);
			Sched::SignalingCounter<long> x{from};
			std::atomic<int> back[6]{};
			std::atomic<bool> reached[6]{};
			int want[6]{};
			reached[from] = true;
			std::vector<std::thread> ts;
			auto n = 1 + rng() % 8;
			for(unsigned i = 0; i < n; ++i)
			{
				auto const lo = std::min(from, last), hi = std::max(from, last);
				auto const v = lo + static_cast<long>(rng() % 1000) % (hi - lo + 1);
				++want[v];
				ts.emplace_back([&x, &back, &reached, v, w = static_cast<unsigned>(rng())]() {
					work(w);
					x.wait(v);
					if(!reached[v]) { fail("waiting for value %ld ends early", v); }
					++back[v];
				});
			}
			for(long v = from;;)
			{
				until(back[v], want[v], "the counter value", v);
				if(v == last) { break; }
				v += v < last ? 1 : -1;
				work(static_cast<unsigned>(rng()));
				reached[v] = true;
				if(v > from) { ++x; }
				else { --x; }
			}
			for(auto& t : ts) { t.join(); }
			n_waits += static_cast<long>(n);
		}
		{
			Sched::ThreadPool p{ThreadCount{std::to_string(poolSize(rng)).c_str()}};
			Sched::AsyncTaskResult<std::string> res;
#if defined(__SANITIZE_THREAD__)
			// (the reference count of an exception is in the library, and TSan does not see it)
			bool const thr = false;
#else
			bool const thr = rng() % 3 == 0;
#endif
			std::atomic<int> back{0};
			std::vector<std::thread> ts;
			auto n = 1 + rng() % 6;
			for(unsigned i = 0; i < n; ++i)
			{
				ts.emplace_back([&res, &back, thr, w = static_cast<unsigned>(rng())]() {
					work(w);
					try
					{
						if(res.get() != text(7) || thr) { fail("result is wrong"); }
						++n_results;
					}
					catch(TestError const& e)
					{
						if(!thr || e.id != 5) { fail("the wrong exception is delivered"); }
						++n_except;
					}
					++back;
				});
			}
			p.addTask(
			   [thr, w = static_cast<unsigned>(rng())]() {
				   work(w);
				   if(thr) { throw TestError{5}; }
				   return text(7);
			   },
			   res);
			until(back, static_cast<int>(n), "a result", 0);
			for(auto& t : ts) { t.join(); }
		}
	}

	void roundEvent(std::mt19937& rng)
	{
		where = "event";
		auto n = 20 + rng() % 300;
		Sched::Event a, b;
		long shared = 0;
		auto seed = static_cast<unsigned>(rng());
		std::thread t{[&]() {
			for(unsigned i = 0; i < n; ++i)
			{
				a.waitAndReset();
				if(shared != static_cast<long>(2 * i + 1)) { fail("waiting for an event ends before it is set (%ld, %u)", shared, i); }
				++shared;
				if((i + seed) % 50 == 0) { work(seed + i); }
				b.set();
			}
		}};
		for(unsigned i = 0; i < n; ++i)
		{
			++shared;
			if((i + seed) % 40 == 0) { work(seed + i); }
			a.set();
			b.waitAndReset();
			if(shared != static_cast<long>(2 * i + 2)) { fail("waiting for an event ends before it is set (%ld, %u)", shared, i); }
			n_events += 2;
		}
		t.join();
		// setting it twice is one event, setting it before the wait is not lost
		Sched::Event e;
		e.set();
		e.set();
		e.waitAndReset();
		std::atomic<int> state{0};
		std::thread u{[&]() {
			e.waitAndReset();
			if(state != 1) { fail("an event is seen twice"); }
		}};
		std::this_thread::sleep_for(std::chrono::microseconds(rng() % 3000));
		state = 1;
		e.set();
		u.join();
		n_events += 2;
	}
}

int main(int argc, char** argv)
{
	if(argc < 3) { return 2; }
	std::mt19937 rng{static_cast<unsigned>(atoi(argv[1]))};
	auto rounds = atoi(argv[2]);
	for(int i = 0; i < rounds && !violations; ++i)
	{
		switch(rng() % 9)
		{
			case 0: roundExceptions(rng); break;
			case 1:
			case 2: roundCounter(rng); break;
			case 3: roundEvent(rng); break;
			case 8: roundWaiters(rng); break;
			default: roundTasks(rng); break;
		}
	}
	printf("S tasks=%ld nested=%ld results=%ld exceptions_delivered=%ld exceptions_kept=%ld counter_waits=%ld events=%ld pools=%ld barriers=%ld peak=%ld\n", n_tasks.load(), n_nested.load(),
	       n_results.load(), n_except.load(), n_kept.load(), n_waits.load(), n_events.load(), n_pools.load(), n_barriers.load(), max_active.load());
	fflush(stdout);
	return violations ? 1 : 0;
}
