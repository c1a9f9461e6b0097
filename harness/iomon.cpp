// Streams random bytes through the buffers, pipes and files of core/io and compares what comes out.
//   iomon <seed> <rounds> <scratch dir>
#include <condition_variable>
#include <mutex>
#include <memory>
#include <list>
#include <algorithm>
#include <array>
#include <cstring>
#include <string>
#include <vector>

#include "core/io/fifo.hpp"
#include "core/io/input_buffer.hpp"
#include "core/io/input_file.hpp"
#include "core/io/mem_io_redirector.hpp"
#include "core/io/output_buffer.hpp"
#include "core/io/reader.hpp"
#include "core/io/writer.hpp"

#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <random>
#include <thread>
#include <unistd.h>

using namespace Maike;

namespace
{
	std::mutex out_mtx;
	std::atomic<long> violations{0}, n_bytes{0}, n_fifo{0}, n_inbuf{0}, n_outbuf{0}, n_mem{0}, n_file{0}, n_pipe{0};

	void fail(char const* fmt, ...)
	{
		char buf[1000];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof(buf), fmt, ap);
		va_end(ap);
		std::lock_guard l{out_mtx};
		if(++violations < 10)
		{
			printf("V %s\n", buf);
			fflush(stdout);
		}
	}

	using Rng = std::mt19937;

	template<class T>
	std::vector<T> data(Rng& rng, size_t n)
	{
		std::vector<T> v(n);
		auto style = rng() % 4;
		for(auto& x : v) { x = static_cast<T>(style == 0 ? 0xff : style == 1 ? rng() % 2 * 0xff : style == 2 ? 0 : rng()); }
		return v;
	}

	size_t sizeOf(Rng& rng)
	{
		static size_t const s[] = {0, 1, 2, 3, 10, 100, 1000, 4095, 4096, 4097, 8192, 20000, 70000};
		return s[rng() % 13] + (rng() % 3 == 0 ? rng() % 50 : 0);
	}

	size_t chunk(Rng& rng)
	{
		static size_t const s[] = {1, 1, 2, 3, 7, 64, 500, 4095, 4096, 4097, 65536};
		return s[rng() % 11];
	}

	void pause(Rng& rng)
	{
		switch(rng() % 30)
		{
			case 0: std::this_thread::yield(); break;
			case 1: std::this_thread::sleep_for(std::chrono::microseconds(rng() % 300)); break;
		}
	}

	template<class T>
	void compare(std::vector<T> const& want, std::vector<T> const& got, char const* where)
	{
		size_t i = 0;
		while(i < want.size() && i < got.size() && want[i] == got[i]) { ++i; }
		if(want != got) { fail("%s: %zu of %zu elements come out, the first difference is at %zu", where, got.size(), want.size(), i); }
		n_bytes += static_cast<long>(want.size() * sizeof(T));
	}

	template<class T>
	void fifo(Rng& rng)
	{
		Io::Fifo<T> f;
		auto const d = data<T>(rng, sizeOf(rng));
		std::atomic<size_t> written{0};
		std::atomic<bool> stopped{false};
		auto wmax = chunk(rng), rmax = chunk(rng);
		Rng wr{static_cast<unsigned>(rng())};
		bool through = rng() % 2;
		std::thread w{[&]() {
			size_t pos = 0;
			while(pos < d.size())
			{
				auto k = std::min(d.size() - pos, 1 + wr() % wmax);
				// the buffer is only valid during the call
				std::vector<T> tmp(d.begin() + static_cast<long>(pos), d.begin() + static_cast<long>(pos + k));
				written += k;
				if(through) { write(f, tmp.data(), k); }
				else
				{
					f.write(tmp.data(), k);
				}
				std::fill(tmp.begin(), tmp.end(), T{});
				pos += k;
				pause(wr);
			}
			pause(wr);
			stopped = true;
			f.stop();
		}};
		std::vector<T> got;
		while(true)
		{
			std::vector<T> b(1 + rng() % rmax);
			auto n = through ? read(f, b.data(), b.size()) : f.read(b.data(), b.size());
			if(n > b.size())
			{
				fail("fifo: %zu elements are read into a buffer for %zu", n, b.size());
				break;
			}
			if(n == 0) { break; }
			got.insert(got.end(), b.begin(), b.begin() + static_cast<long>(n));
			if(got.size() > written) { fail("fifo: more is read than has been written"); }
			if(got.size() > d.size()) { break; }
			pause(rng);
		}
		if(!stopped) { fail("fifo: the end is reported before the writer has finished"); }
		w.join();
		compare(d, got, "fifo");
		++n_fifo;
	}

	struct Chunks
	{
		std::vector<std::byte> const* d;
		size_t* pos;
		Rng rng;
		size_t max;
		bool error_at_end;
	};

	size_t read(Chunks& c, std::byte* b, size_t n)
	{
		auto k = std::min({n, c.d->size() - *c.pos, 1 + c.rng() % c.max});
		if(k == 0 && c.error_at_end) { return static_cast<size_t>(-1); }
		if(k) { memcpy(b, c.d->data() + *c.pos, k); }
		*c.pos += k;
		return k;
	}

	template<class Buffer>
	std::vector<std::byte> drain(Buffer& b, size_t limit)
	{
		std::vector<std::byte> got;
		while(true)
		{
			auto ch = b.getchar();
			if(ch == -1) { break; }
			if(ch < 0 || ch > 255) { fail("input buffer: getchar returns %d", ch); }
			got.push_back(static_cast<std::byte>(ch));
			if(got.size() > limit) { break; }
		}
		for(int i = 0; i < 3; ++i)
		{
			if(b.getchar() != -1) { fail("input buffer: there is data after the end"); }
		}
		return got;
	}

	template<size_t Capacity>
	void inbuf(Rng& rng)
	{
		auto const d = data<std::byte>(rng, sizeOf(rng));
		size_t pos = 0;
		Chunks c{&d, &pos, Rng{static_cast<unsigned>(rng())}, chunk(rng), rng() % 4 == 0};
		if(rng() % 2)
		{
			Io::InputBuffer<Chunks, Capacity> b{c};
			compare(d, drain(b, d.size()), "input buffer");
		}
		else
		{
			Io::InputBuffer<Io::Reader, Capacity> b{Io::Reader{c}};
			compare(d, drain(b, d.size()), "input buffer on a reader");
		}
		++n_inbuf;
	}

	struct SinkRef
	{
		std::vector<std::byte>* d;
	};

	void write(SinkRef const& s, std::byte const* b, size_t n)
	{
		s.d->insert(s.d->end(), b, b + n);
	}

	template<size_t Capacity>
	void outbuf(Rng& rng)
	{
		auto const d = data<std::byte>(rng, sizeOf(rng));
		std::vector<std::byte> got, got2;
		auto flush = rng() % 3 == 0;
		{
			Io::OutputBuffer<SinkRef, Capacity> b{SinkRef{&got}};
			SinkRef s2{&got2};
			Io::OutputBuffer<Io::Writer, Capacity> b2{Io::Writer{s2}};
			for(size_t i = 0; i < d.size(); ++i)
			{
				if(rng() % 2)
				{
					b.putchar(d[i]);
					b2.putchar(static_cast<char>(d[i]));
				}
				else
				{
					b.putchar(static_cast<char>(d[i]));
					b2.putchar(d[i]);
				}
				if(flush && rng() % 97 == 0)
				{
					b.flush();
					if(got.size() != i + 1) { fail("output buffer: %zu of %zu bytes are there after a flush", got.size(), i + 1); }
					b2.flush();
				}
				if(got.size() > i + 1 || i + 1 - got.size() > Capacity) { fail("output buffer: %zu bytes are written, %zu have been put", got.size(), i + 1); }
			}
		}
		compare(d, got, "output buffer");
		compare(d, got2, "output buffer on a writer");
		++n_outbuf;
	}

	void mem(Rng& rng)
	{
		auto const in = data<std::byte>(rng, sizeOf(rng)), out = data<std::byte>(rng, sizeOf(rng)), err = data<std::byte>(rng, sizeOf(rng));
		Io::MemRedirector m{in.data(), in.size()};
		Io::Redirector r{m};
		Rng ro{static_cast<unsigned>(rng())}, re{static_cast<unsigned>(rng())};
		auto feed = [&](auto const& d, Rng& g, bool error) {
			for(size_t p = 0; p < d.size();)
			{
				auto k = std::min(d.size() - p, 1 + g() % chunk(g));
				if(error) { r.stderr()(r.handle(), d.data() + p, k); }
				else
				{
					r.stdout()(r.handle(), d.data() + p, k);
				}
				p += k;
			}
		};
		// the three directions are used from different threads
		std::thread t1{[&]() { feed(out, ro, false); }}, t2{[&]() { feed(err, re, true); }};
		std::vector<std::byte> got;
		while(true)
		{
			std::vector<std::byte> b(chunk(rng));
			auto n = r.stdin()(r.handle(), b.data(), b.size());
			if(n == 0 || n > b.size()) { break; }
			got.insert(got.end(), b.begin(), b.begin() + static_cast<long>(n));
		}
		t1.join();
		t2.join();
		compare(in, got, "standard input in memory");
		compare(out, m.stdout(), "standard output in memory");
		compare(err, m.stderr(), "standard error in memory");
		++n_mem;
	}

	int fds()
	{
		int n = 0;
		auto d = opendir("/proc/self/fd");
		while(auto e = readdir(d)) { n += e->d_name[0] != '.'; }
		closedir(d);
		return n;
	}

	std::string store(std::string const& dir, int k, std::vector<std::byte> const& d)
	{
		auto name = dir + "/f" + std::to_string(k);
		auto f = fopen(name.c_str(), "wb");
		if(!d.empty()) { fwrite(d.data(), 1, d.size(), f); }
		fclose(f);
		return name;
	}

	std::vector<std::byte> readAll(Io::InputFile& f, Rng& rng)
	{
		std::vector<std::byte> got;
		while(true)
		{
			std::vector<std::byte> b(chunk(rng));
			auto n = rng() % 2 ? read(f, b.data(), b.size()) : f.read(b.data(), b.size());
			if(n == 0 || n == static_cast<size_t>(-1)) { break; }
			got.insert(got.end(), b.begin(), b.begin() + static_cast<long>(n));
		}
		return got;
	}

	void file(Rng& rng, std::string const& dir)
	{
		auto const a = data<std::byte>(rng, sizeOf(rng)), b = data<std::byte>(rng, sizeOf(rng));
		auto na = store(dir, 1, a), nb = store(dir, 2, b);
		auto before = fds();
		{
			Io::InputFile fa{na}, fb{nb};
			if(fa.get() < 0 || !(fcntl(fa.get(), F_GETFD) & FD_CLOEXEC)) { fail("input file: child processes inherit its descriptor"); }
			if(rng() % 2)
			{
				Io::InputFile fc{std::move(fa)};
				compare(a, readAll(fc, rng), "moved input file");
				auto old = fc.get();
				fc = std::move(fb);
				compare(b, readAll(fc, rng), "assigned input file");
				// a file that gets the number of the one that was closed by the assignment stays open
				auto other = open("/dev/null", O_RDONLY);
				{
					Io::InputFile fd{std::move(fb)};
				}
				if(fcntl(other, F_GETFD) == -1) { fail("input file: a descriptor of somebody else is closed (%d, %d)", other, old); }
				close(other);
			}
			else
			{
				compare(a, readAll(fa, rng), "input file");
				int other = -1;
				{
					Io::InputFile x{na}, y{nb};
					x = std::move(y);
					other = open("/dev/null", O_RDONLY);
					compare(b, readAll(x, rng), "assigned input file");
				}
				if(fcntl(other, F_GETFD) == -1) { fail("input file: a descriptor of somebody else is closed"); }
				close(other);
				compare(b, readAll(fb, rng), "input file");
			}
		}
		if(fds() != before) { fail("input file: %d descriptors are left open", fds() - before); }
		try
		{
			Io::InputFile x{dir + "/does not exist"};
			fail("input file: a file that does not exist is opened");
		}
		catch(std::runtime_error const&)
		{
		}
		++n_file;
	}

	// file -> buffer -> fifo -> (other thread) buffer -> buffer -> memory
	void pipeline(Rng& rng, std::string const& dir)
	{
		auto const d = data<std::byte>(rng, sizeOf(rng));
		Io::InputFile f{store(dir, 3, d)};
		Io::Fifo<std::byte> first, second;
		Rng r1{static_cast<unsigned>(rng())};
		std::thread t1{[&]() {
			{
				Io::InputBuffer<Io::Reader> in{Io::Reader{f}};
				std::vector<std::byte> piece;
				while(true)
				{
					auto ch = in.getchar();
					if(ch == -1) { break; }
					piece.push_back(static_cast<std::byte>(ch));
					if(r1() % 100 == 0)
					{
						first.write(piece.data(), piece.size());
						piece.clear();
						pause(r1);
					}
				}
				if(!piece.empty()) { first.write(piece.data(), piece.size()); }
			}
			first.stop();
		}};
		std::thread t2{[&]() {
			{
				Io::InputBuffer<Io::Reader, 64> in{Io::Reader{first}};
				while(true)
				{
					auto ch = in.getchar();
					if(ch == -1) { break; }
					auto b = static_cast<std::byte>(ch);
					second.write(&b, 1);
				}
			}
			second.stop();
		}};
		std::vector<std::byte> got;
		{
			SinkRef s{&got};
			Io::OutputBuffer<Io::Writer, 100> out{Io::Writer{s}};
			Io::InputBuffer<Io::Reader> in{Io::Reader{second}};
			while(true)
			{
				auto ch = in.getchar();
				if(ch == -1) { break; }
				out.putchar(static_cast<std::byte>(ch));
			}
		}
		t1.join();
		t2.join();
		compare(d, got, "pipeline");
		++n_pipe;
	}
}

int main(int argc, char** argv)
{
	if(argc < 4) { return 2; }
	Rng rng{static_cast<unsigned>(atoi(argv[1]))};
	auto rounds = atoi(argv[2]);
	for(int i = 0; i < rounds && !violations; ++i)
	{
		switch(rng() % 16)
		{
			case 0: fifo<char>(rng); break;
			case 1: fifo<int>(rng); break;
			case 2:
			case 3:
			case 4: fifo<std::byte>(rng); break;
			case 5: inbuf<1>(rng); break;
			case 6: inbuf<7>(rng); break;
			case 7: inbuf<4096>(rng); break;
			case 8: outbuf<1>(rng); break;
			case 9: outbuf<13>(rng); break;
			case 10: outbuf<4096>(rng); break;
			case 11: mem(rng); break;
			case 12:
			case 13: file(rng, argv[3]); break;
			default: pipeline(rng, argv[3]); break;
		}
	}
	printf("S bytes=%ld fifos=%ld input_buffers=%ld output_buffers=%ld memory_pipes=%ld files=%ld pipelines=%ld\n", n_bytes.load(), n_fifo.load(), n_inbuf.load(), n_outbuf.load(), n_mem.load(), n_file.load(), n_pipe.load());
	fflush(stdout);
	return violations ? 1 : 0;
}
