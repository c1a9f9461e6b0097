// Coverage-guided hostile input for everything that parses: each input is one selector byte and data.
#include "core/build/id.hpp"
#include "core/utils/system_time_stamp.hpp"
#include "core/sched/thread_count.hpp"
#include "core/cmd_line_parser/command_line.hpp"
#include "core/bin/config.hpp"
#include "core/io/fifo.hpp"
#include "core/key_value_store/array.hpp"
#include "core/key_value_store/compound.hpp"
#include "core/source_file_info_loaders/app/source_file_loader.hpp"
#include "core/source_file_info_loaders/cxx/source_file_loader.hpp"
#include "core/source_file_info_loaders/extension/source_file_loader.hpp"
#include "core/source_file_info_loaders/generic/source_file_loader.hpp"
#include "core/source_file_info_loaders/lib/source_file_loader.hpp"
#include "core/source_file_info_loaders/loader.hpp"
#include "core/source_file_info_loaders/maikerule/source_file_loader.hpp"
#include "core/source_tree_loader/source_file_load_ctxt.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

using namespace Maike;

namespace
{
	struct Bytes
	{
		char const* p;
		size_t n;
		size_t chunk;
	};

	size_t read(Bytes& src, std::byte* buffer, size_t n)
	{
		auto k = std::min(std::min(n, src.n), src.chunk);
		memcpy(buffer, src.p, k);
		src.p += k;
		src.n -= k;
		return k;
	}

	struct Out
	{
		std::string s;
	};

	void write(Out& out, char const* p, size_t n)
	{
		out.s.append(p, n);
	}

	size_t counts[16];
	size_t good[16];

	void useTags(KeyValueStore::Compound const& tags)
	{
		fs::path const src{"d/e/x.x"}, src_dir{"d"}, out_dir{"out"};
		SourceTreeLoader::SourceFileLoadContext ctxt{src, src_dir, out_dir};
		(void)SourceTreeLoader::getTargets(ctxt, tags);
		(void)SourceTreeLoader::getUseDeps(ctxt, tags);
		(void)SourceTreeLoader::getChildTargetUseDeps(ctxt, tags);
		(void)tags.getIf<Db::Compiler>("compiler");
		(void)tags.getIf<Db::RebuildPolicy>("rebuild");
	}

	template<class Loader>
	void load(char const* p, size_t n, size_t chunk)
	{
		SourceFileInfoLoaders::Loader const loader{Loader{}};
		Io::Fifo<std::byte> src, tags;
		Bytes b{p, n, chunk};
		loader.filterInput(Io::Reader{b}, SourceFileInfoLoaders::SourceOutStream{src}, SourceFileInfoLoaders::TagsOutStream{tags});
		tags.stop();
		src.stop();
		(void)loader.getDependencies(Io::Reader{src});
		useTags(KeyValueStore::Compound{Io::Reader{tags}, "x"});
	}

	void one(int what, char const* p, size_t n, size_t chunk)
	{
		switch(what)
		{
			case 0:
			case 1: load<Cxx::SourceFileLoader>(p, n, chunk); break;
			case 2: load<Extension::SourceFileLoader>(p, n, chunk); break;
			case 3: load<App::SourceFileLoader>(p, n, chunk); break;
			case 4: load<Lib::SourceFileLoader>(p, n, chunk); break;
			case 5: load<Maikerule::SourceFileLoader>(p, n, chunk); break;
			case 6: load<Generic::SourceFileLoader>(p, n, chunk); break;
			case 7:
			case 8:
			{
				Bytes b{p, n, chunk};
				KeyValueStore::Compound c{Io::Reader{b}, "cfg"};
				auto const cfg = c.get<Config>("maikeconfig");
				Out out;
				store(KeyValueStore::Compound{}.set("maikeconfig", cfg).handleReference(), out);
				Bytes b2{out.s.data(), out.s.size(), 4096};
				KeyValueStore::Compound c2{Io::Reader{b2}, "again"};
				auto const cfg2 = c2.get<Config>("maikeconfig");
				Out out2;
				store(KeyValueStore::Compound{}.set("maikeconfig", cfg2).handleReference(), out2);
				if(out.s != out2.s)
				{
					fprintf(stderr, "V a dumped configuration is not the same when it is read again:\n%s\n%s\n", out.s.c_str(), out2.s.c_str());
					abort();
				}
				break;
			}
			case 9:
			{
				auto const k = static_cast<char const*>(memchr(p, '\0', n));
				auto const n1 = k == nullptr ? n : static_cast<size_t>(k - p);
				Bytes b1{p, n1, chunk};
				Bytes b2{k == nullptr ? p : k + 1, k == nullptr ? n : n - n1 - 1, 4096};
				KeyValueStore::Compound c1{Io::Reader{b1}, "a"};
				KeyValueStore::Compound const c2{Io::Reader{b2}, "b"};
				Out before, after, merged;
				store(c2, before);
				KeyValueStore::Compound m{std::move(c1) | c2.reference()};
				store(m, merged);
				store(c2, after);
				if(before.s != after.s)
				{
					fprintf(stderr, "V merging changes an operand\n");
					abort();
				}
				useTags(m);
				break;
			}
			default:
			{
				std::string s{p, n};
				auto const str = s.c_str();
				switch(s.size() % 4)
				{
					case 0:
					{
						auto const t = fromString(Empty<ThreadCount>{}, str);
						if(t.value() < 1)
						{
							fprintf(stderr, "V number of workers is %d\n", t.value());
							abort();
						}
						(void)toString(t);
						break;
					}
					case 1: (void)toString(fromString(Empty<Build::Id>{}, str)); break;
					case 2: (void)format(fromString(Empty<SystemTimeStamp>{}, str)); break;
					default: (void)CmdLineParser::fromString(Empty<std::vector<fs::path>>{}, str);
				}
			}
		}
	}

	void report()
	{
		printf("S");
		size_t n = 0, g = 0;
		for(int k = 0; k < 11; ++k)
		{
			printf(" fuzz_%d=%zu", k, counts[k]);
			n += counts[k];
			g += good[k];
		}
		printf(" fuzz_inputs=%zu fuzz_accepted=%zu\n", n, g);
		fflush(stdout);
	}
}

extern "C" int LLVMFuzzerTestOneInput(uint8_t const* data, size_t n)
{
	static bool const init = []() {
		KeyValueStore::init();
		atexit(report);
		return true;
	}();
	(void)init;
	if(n < 2) { return 0; }
	auto const what = data[0] % 11;
	++counts[what];
	try
	{
		// a chunk size that is no divisor of anything, the whole input, or single bytes
		size_t const chunks[] = {4096, 7, 1, 100};
		one(what, reinterpret_cast<char const*>(data) + 2, n - 2, chunks[data[1] % 4]);
		++good[what];
	}
	catch(std::exception const& e)
	{
		if(e.what()[0] == '\0')
		{
			fprintf(stderr, "V error without a message\n");
			abort();
		}
	}
	return 0;
}
