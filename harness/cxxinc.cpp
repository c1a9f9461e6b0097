// Feeds sources (frames on standard input: "<length> <chunk seed>\n<bytes>") to the C++ loader, in
// chunks of random size, and prints the includes it finds.
#include "core/source_file_info_loaders/cxx/source_file_loader.hpp"

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <string>

namespace
{
	struct Source
	{
		std::string const& data;
		unsigned seed;
		size_t pos{0};
	};

	size_t read(Source& src, std::byte* buffer, size_t n)
	{
		auto k = std::min(n, src.data.size() - src.pos);
		if(src.seed != 0 && k > 1)
		{
			src.seed = src.seed * 1103515245u + 12345u;
			k = 1 + (src.seed >> 16) % std::min<size_t>(k, src.seed % 3 == 0 ? 7 : 5000);
		}
		memcpy(buffer, src.data.data() + src.pos, k);
		src.pos += k;
		return k;
	}

	struct Sink
	{
		std::string data;
	};

	void write(Sink& sink, std::byte const* buffer, size_t n)
	{
		sink.data.append(reinterpret_cast<char const*>(buffer), n);
	}
}

int main()
{
	size_t n;
	unsigned seed;
	Cxx::SourceFileLoader loader;
	while(scanf("%zu %u", &n, &seed) == 2)
	{
		getchar();
		std::string data(n, '\0');
		if(fread(data.data(), 1, n, stdin) != n) { return 3; }
		try
		{
			Source src{data, seed};
			auto deps = loader.getDependencies(Maike::Io::Reader{src});
			printf("%zu\n", deps.size());
			for(auto const& item : deps)
			{
				auto o = item.expectedOrigin();
				printf("%c %s\n",
				       o == Maike::Db::SourceFileOrigin::Project ?
				          'P' :
				          o == Maike::Db::SourceFileOrigin::Generated ? 'G' : o == Maike::Db::SourceFileOrigin::System ? 'S' : '?',
				       item.name().c_str());
			}
			Source src2{data, seed};
			Sink source;
			Sink tags;
			loader.filterInput(Maike::Io::Reader{src2},
			                   Maike::SourceFileInfoLoaders::SourceOutStream{source},
			                   Maike::SourceFileInfoLoaders::TagsOutStream{tags});
			printf("%s\n", source.data == data ? "same" : "different");
		}
		catch(std::exception const& err)
		{
			printf("-1\n%s\n", err.what());
		}
	}
	return 0;
}
