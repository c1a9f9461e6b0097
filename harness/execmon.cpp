// Calls Exec::execve from several threads with random programs, arguments, input and behaviour of
// the child, and checks everything that comes back.   execmon <child> <dir> <seed> <threads> <calls> <mode>
#include "core/exec/execve.hpp"
#include "core/io/mem_io_redirector.hpp"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <mutex>
#include <random>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace
{
	std::mutex out_mtx;
	std::atomic<long> n_calls{0}, n_launch_fail{0}, n_fd_fail{0}, n_sig{0}, b_in{0}, b_out{0}, b_err{0}, active{0}, peak{0}, n_epipe{0}, violations{0};

	void fail(char const* fmt, ...)
	{
		char buf[3000];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof(buf), fmt, ap);
		va_end(ap);
		std::lock_guard l{out_mtx};
		if(++violations < 20)
		{
			printf("V %s\n", buf);
			fflush(stdout);
		}
	}

	uint64_t fnv(uint64_t h, void const* p, size_t n)
	{
		auto b = static_cast<unsigned char const*>(p);
		while(n--) { h = (h ^ *b++) * 1099511628211ull; }
		return h;
	}

	unsigned char pat(unsigned stream, unsigned long long i)
	{
		unsigned long long x = i * 2654435761u + stream * 40503u;
		return static_cast<unsigned char>(x >> 11 ^ x >> 3);
	}

	bool matches(std::vector<std::byte> const& data, unsigned stream, unsigned long long n, size_t& where)
	{
		for(size_t k = 0; k != data.size(); ++k)
		{
			if(static_cast<unsigned char>(data[k]) != pat(stream, k))
			{
				where = k;
				return false;
			}
		}
		where = data.size();
		return data.size() == n;
	}

	int count_fds()
	{
		int n = 0;
		auto d = opendir("/proc/self/fd");
		while(auto e = readdir(d)) { n += e->d_name[0] != '.'; }
		closedir(d);
		return n;
	}

	size_t pick(std::mt19937& rng, std::initializer_list<size_t> l)
	{
		return l.begin()[rng() % l.size()];
	}

	uint64_t env_hash;
	int env_n;
	std::string child, dir;
	bool low_fds, check_fds = true;
	unsigned long long ignored;    // signals that are ignored when the monitor starts

	void call(std::mt19937& rng, int id)
	{
		auto const report = dir + "/r" + std::to_string(id);
		auto const sizes = {size_t{0}, size_t{1}, size_t{100}, size_t{4095}, size_t{4096}, size_t{4097}, size_t{8192}, size_t{65535}, size_t{65536}, size_t{65537}, size_t{131072}, size_t{300000}, static_cast<size_t>(rng() % 20000)};
		auto size = [&]() { return sizes.begin()[rng() % sizes.size()]; };
		// programs that cannot be started
		if(rng() % 12 == 0)
		{
			auto const which = rng() % 6;
			auto const exe = which == 0 ? dir + "/does not exist" : which == 1 ? dir + "/noexec" : which == 2 ? dir : which == 3 ? dir + "/badformat" : which == 4 ? dir + "/noexec/x" : std::string{};
			try
			{
				std::string in(size(), 'x');
				Maike::Io::MemRedirector r{reinterpret_cast<std::byte const*>(in.data()), in.size()};
				(void)Maike::Exec::execve(exe, {"a"}, r);
				fail("'%s', which cannot be started, is not reported as an error", exe.c_str());
			}
			catch(std::exception const& e)
			{
				++n_launch_fail;
				if(std::string_view{e.what()} == "") { fail("empty error message"); }
			}
			return;
		}

		std::string script;
		size_t want_in = size(), out = 0, err = 0;
		int eof = 0, code = 0, sig = 0;
		bool reads_all = false, closed_in = false;
		auto add = [&script](char c, size_t n) { script += c + std::to_string(n) + ","; };
		if(rng() % 4 == 0) { add('s', rng() % 3000); }
		switch(rng() % 9)
		{
			case 0:    // all input, then output
				add('R', 0);
				reads_all = true;
				add('o', out = size());
				add('e', err = size());
				break;
			case 1:    // output before input
				add('e', err = size());
				add('o', out = size());
				add('R', 0);
				reads_all = true;
				break;
			case 2:    // filter
				add('t', 0);
				out = want_in;
				reads_all = true;
				add('e', err = size());
				break;
			case 3:    // ignores its input
				add('o', out = size());
				add('x', 777);
				out += 777;
				err = 777;
				break;
			case 4:    // closes its input early
				add('c', 0);
				closed_in = true;
				add('s', rng() % 2000);
				add('o', out = size());
				add('e', err = size());
				break;
			case 5:    // closes its output early, goes on with the other stream
				add('o', out = size());
				add('c', 1);
				add('R', 0);
				reads_all = true;
				add('s', rng() % 2000);
				add('e', err = size());
				break;
			case 6:    // closes everything and stays for a while
				add('e', err = size());
				add('c', 2);
				add('c', 1);
				add('c', 0);
				closed_in = true;
				add('s', rng() % 5000);
				break;
			case 7:    // in turns
			{
				auto n = size() % 9000;
				add('x', n);
				out = err = n;
				add('R', 0);
				reads_all = true;
				break;
			}
			case 8:    // reads some of it
				add('r', rng() % 5000);
				add('o', out = size());
				break;
		}
		if(rng() % 4 == 0)
		{
			int const sigs[] = {SIGKILL, SIGTERM, SIGSEGV, SIGABRT, SIGUSR1, SIGFPE, SIGHUP, SIGINT, SIGALRM, SIGBUS};
			sig = sigs[rng() % 10];
			add('k', sig);
			++n_sig;
		}
		else
		{
			code = rng() % 3 == 0 ? 0 : static_cast<int>(pick(rng, {1, 2, 42, 126, 127, 128, 129, 137, 254, 255}));
			add('q', code);
		}
		std::vector<std::string> args{report, script};
		auto const n_args = pick(rng, {0, 1, 3, 10, 200});
		uint64_t ha = 14695981039346656037ull;
		for(size_t k = 0; k != n_args; ++k)
		{
			std::string a(pick(rng, {0, 1, 2, 10, 50}), ' ');
			if(rng() % 200 == 0) { a.resize(100000); }
			for(auto& ch : a) { ch = static_cast<char>(1 + rng() % 255); }
			ha = fnv(ha, a.c_str(), a.size() + 1);
			args.push_back(std::move(a));
		}
		std::string in(want_in, ' ');
		for(size_t k = 0; k != in.size(); ++k) { in[k] = static_cast<char>((k * 131 + id) >> (k & 3)); }
		uint64_t hi = fnv(14695981039346656037ull, in.data(), in.size());

		auto const now = ++active;
		for(auto p = peak.load(); now > p && !peak.compare_exchange_weak(p, now);) {}
		bool const simple = rng() % 5 == 0;
		if(simple)
		{
			want_in = 0;
			hi = 14695981039346656037ull;
			if(script.find("t0") != std::string::npos) { out = 0; }
		}
		Maike::Io::MemRedirector r{reinterpret_cast<std::byte const*>(in.data()), in.size()};
		std::vector<std::byte> got_out, got_err;
		Maike::Exec::ExitStatus st;
		try
		{
			if(simple)
			{
				auto res = Maike::Exec::execve(child, args);
				got_out = res.stdout();
				got_err = res.stderr();
				st = res.exitStatus();
				if(failed(res) != (sig != 0 || code != 0)) { fail("failed() is wrong for %s", script.c_str()); }
			}
			else
			{
				st = Maike::Exec::execve(child, args, r);
				got_out = r.stdout();
				got_err = r.stderr();
			}
		}
		catch(std::exception const& e)
		{
			--active;
			if(low_fds) { ++n_fd_fail; }
			else
			{
				fail("a program that can be started is reported as an error: %s", e.what());
			}
			return;
		}
		--active;
		++n_calls;
		b_in += in.size();
		b_out += got_out.size();
		b_err += got_err.size();
		if(failed(st) != (sig != 0 || code != 0)) { fail("failed() is wrong for %s", script.c_str()); }
		if(sig ? st.returnedFromMain() || st.signo() != sig : !st.returnedFromMain() || st.returnCode() != code)
		{ fail("exit status: expected code %d signal %d, got code %d signal %d main %d (%s)", code, sig, st.returnCode(), st.signo(), st.returnedFromMain(), script.c_str()); }
		size_t where = 0;
		if(!matches(got_out, 1, out, where)) { fail("standard output: %zu bytes expected, %zu received, first difference at %zu (%s)", out, got_out.size(), where, script.c_str()); }
		if(!matches(got_err, 2, err, where)) { fail("standard error: %zu bytes expected, %zu received, first difference at %zu (%s)", err, got_err.size(), where, script.c_str()); }
		int argc = 0, ne = 0, got_eof = 0;
		unsigned long long h_a, h_e, h_i, n_in, ign = 0, blk = 0;
		char fds[2001] = "";
		auto f = fopen(report.c_str(), "re");
		if(f == nullptr && low_fds) { return; }
		if(f == nullptr || fscanf(f, "%d %llx %d %llx %llu %llx %d %llx %llx|%2000[^\n]", &argc, &h_a, &ne, &h_e, &n_in, &h_i, &got_eof, &ign, &blk, fds) < 10) { fail("no report of the child (%s)", script.c_str()); }
		else
		{
			if(static_cast<size_t>(argc) != n_args + 3 || h_a != ha) { fail("arguments differ: %d instead of %zu, or their contents (%s)", argc, n_args + 3, script.c_str()); }
			if(ne != env_n || h_e != env_hash) { fail("environment differs: %d instead of %d entries, or their contents", ne, env_n); }
			if(reads_all)
			{
				if(n_in != want_in || h_i != hi) { fail("standard input: %zu bytes sent, %llu received, or their contents differ (%s)", want_in, n_in, script.c_str()); }
				if(got_eof != 1) { fail("standard input does not end with end-of-file (%s)", script.c_str()); }
			}
			if((ign & ~ignored) != 0) { fail("signals %llx are ignored in the child, %llx in the caller (%s)", ign, ignored, script.c_str()); }
			if(blk != 0) { fail("signals %llx are blocked in the child (%s)", blk, script.c_str()); }
			if(check_fds && std::string_view{fds} != " 0 1 2") { fail("descriptors open in the child:%s (%s)", fds, script.c_str()); }
		}
		if(f) { fclose(f); }
		unlink(report.c_str());
		(void)eof;
		(void)closed_in;
	}
}

extern char** environ;

int main(int argc, char** argv)
{
	for(int k = 3; k < 1024; ++k) { close(k); }
	child = argv[1];
	dir = argv[2];
	auto const seed = static_cast<unsigned>(atol(argv[3]));
	auto const n_threads = atoi(argv[4]);
	auto const n = atoi(argv[5]);
	std::string const mode = argv[6];
	env_hash = 14695981039346656037ull;
	for(auto e = environ; *e; ++e, ++env_n) { env_hash = fnv(env_hash, *e, strlen(*e) + 1); }
	{
		auto f = fopen((dir + "/noexec").c_str(), "w");
		fclose(f);
		chmod((dir + "/noexec").c_str(), 0600);
		f = fopen((dir + "/badformat").c_str(), "w");
		fputs("\x01\x02\x03", f);
		fclose(f);
		chmod((dir + "/badformat").c_str(), 0755);
	}
	low_fds = mode == "lowfds";
	// the undefined behaviour sanitizer opens pipes of its own in other threads
	check_fds = argc < 8;
	if(mode == "nostdin") { close(0); }
	if(mode == "ignored")
	{
		for(auto s : {SIGCHLD, SIGHUP, SIGPIPE, SIGUSR2})
		{
			if(seed >> (s % 8) & 1)
			{
				signal(s, SIG_IGN);
				ignored |= 1ull << (s - 1);
			}
		}
	}
	// what the run time environment opens, it opens with the first call
	try { (void)Maike::Exec::execve("/bin/true", {}); } catch(...) { fail("cannot run /bin/true"); }
	auto const fds = count_fds();
	if(low_fds)
	{
		struct rlimit rl;
		getrlimit(RLIMIT_NOFILE, &rl);
		rl.rlim_cur = static_cast<rlim_t>(fds + 12);
		setrlimit(RLIMIT_NOFILE, &rl);
	}
	std::vector<std::thread> ts;
	for(int t = 0; t < n_threads; ++t)
	{
		ts.emplace_back([=]() {
			std::mt19937 rng{seed * 1000u + static_cast<unsigned>(t)};
			for(int k = 0; k < n; ++k) { call(rng, t * 100000 + k); }
		});
	}
	for(auto& t : ts) { t.join(); }
	if(low_fds)
	{
		struct rlimit rl;
		getrlimit(RLIMIT_NOFILE, &rl);
		rl.rlim_cur = rl.rlim_max;
		setrlimit(RLIMIT_NOFILE, &rl);
	}
	if(auto k = count_fds(); check_fds && k != fds) { fail("%d descriptors are open after all calls, %d before", k, fds); }
	errno = 0;
	int status;
	if(auto p = waitpid(-1, &status, WNOHANG); p != -1 || errno != ECHILD) { fail("a child process is left behind (%d)", static_cast<int>(p)); }
	printf("S calls=%ld launch_failures=%ld out_of_descriptors=%ld killed=%ld stdin_bytes=%ld stdout_bytes=%ld stderr_bytes=%ld peak=%ld\n", n_calls.load(), n_launch_fail.load(), n_fd_fail.load(), n_sig.load(), b_in.load(), b_out.load(), b_err.load(), peak.load());
	fflush(stdout);
	return violations ? 1 : 0;
}
