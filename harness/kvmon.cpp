// Executes operations on JSON handles, compounds and arrays; the check compares the answers with its own model.
//   kvmon <file>    the file is a sequence of "OP n1 n2 ...\n" followed by the payloads of those sizes
// Answers: "STATUS n1 n2 ...\n" followed by payloads; lines starting with "V " on stderr are violations seen in here.
#include "core/key_value_store/array.hpp"
#include "core/key_value_store/compound.hpp"
#include "core/key_value_store/json_handle.hpp"

#include <cstdio>
#include <fstream>
#include <iostream>
#include <iterator>
#include <random>
#include <sstream>
#include <string>
#include <vector>

using namespace Maike;
using namespace Maike::KeyValueStore;

namespace
{
	struct Chunks
	{
		std::string const& data;
		std::mt19937 rng;
		size_t max;
		size_t pos = 0;
		bool ended = false;
	};

	size_t read(Chunks& c, std::byte* buffer, size_t n)
	{
		auto k = std::min({n, c.data.size() - c.pos, 1 + c.rng() % c.max});
		memcpy(buffer, c.data.data() + c.pos, k);
		c.pos += k;
		return k;
	}

	struct Text
	{
		std::string s;
	};

	void write(Text& t, char const* p, size_t n)
	{
		t.s.append(p, n);
	}

	template<class T>
	std::string dump(T const& x, bool pretty)
	{
		Text t;
		store(x, t, PrettyPrint{pretty});
		return t.s;
	}

	std::string dumpA(Array const& x)
	{
		Text t;
		store(x.handle(), t, PrettyPrint{false});
		return t.s;
	}

	void violation(std::string const& s)
	{
		fprintf(stderr, "V %s\n", s.substr(0, 600).c_str());
	}

	void answer(std::string const& status, std::vector<std::string> const& parts)
	{
		std::string h = status;
		for(auto& p : parts) { h += " " + std::to_string(p.size()); }
		h += "\n";
		fwrite(h.data(), 1, h.size(), stdout);
		for(auto& p : parts) { fwrite(p.data(), 1, p.size(), stdout); }
	}

	JsonHandle load(std::string const& t, unsigned seed, size_t max)
	{
		Chunks c{t, std::mt19937{seed}, max};
		return jsonLoad(Io::Reader{c}, "src");
	}

	Compound compound(std::string const& t, unsigned seed = 1, size_t max = 4096)
	{
		Chunks c{t, std::mt19937{seed}, max};
		return Compound{Io::Reader{c}, "src"};
	}

	Array array(std::string const& t)
	{
		Chunks c{t, std::mt19937{7}, 100};
		return Array{Io::Reader{c}, "src"};
	}

	// iterating gives the same as the data
	void checkIteration(Compound const& c)
	{
		Compound copy;
		size_t n = 0;
		for(auto i = c.begin(); i != c.end(); ++i)
		{
			auto item = *i;
			copy.set(item.first, item.second);
			++n;
		}
		if(n != c.size()) { violation("iterating over a compound visits the wrong number of items"); }
		if(dump(copy, false) != dump(c, false)) { violation("iterating over a compound gives other items than it has"); }
	}

	void opLoad(std::vector<std::string> const& a)
	{
		auto h = load(a[0], static_cast<unsigned>(atoi(a[1].c_str())), static_cast<size_t>(atoi(a[2].c_str())));
		if(!h.valid())
		{
			answer("N", {});
			return;
		}
		auto pretty = dump(h, true), compact = dump(h, false);
		// a second pass through text gives the same, whatever the chunks
		for(auto& t : {pretty, compact})
		{
			auto again = load(t + " ", 3, 1 + t.size() % 17);
			if(dump(again, true) != pretty || dump(again, false) != compact) { violation("storing and loading changes " + compact); }
			JsonHandle copy{again};
			if(dump(copy, false) != compact) { violation("a copy differs from its original: " + compact); }
		}
		if(h.type() == Type::Compound) { checkIteration(compound(compact)); }
		answer("K", {pretty, compact});
	}

	void opMerge(std::vector<std::string> const& a)
	{
		auto x = compound(a[0]), y = compound(a[1]);
		auto const& cx = x;
		std::string r1, r2, st = "K";
		try
		{
			r1 = dump(Compound{cx} | y.reference(), false);
		}
		catch(std::runtime_error const& e)
		{
			st = "E";
		}
		auto ax = dump(x, false), ay = dump(y, false);
		auto z = Compound{cx};
		try
		{
			auto& ref = z |= y;
			if(&ref != &z) { violation("|= returns something else than its left operand"); }
			r2 = dump(z, false);
			if(st == "E") { violation("|= and | disagree"); }
			// what was merged in is a copy
			for(auto i = y.begin(); i != y.end(); ++i) { z.set((*i).first, json_int_t{0}); }
			if(dump(y, false) != ay) { violation("the result of a merge is not independent of its operands"); }
		}
		catch(std::runtime_error const& e)
		{
			if(st == "K") { violation("|= and | disagree"); }
		}
		if(dump(x, false) != ax) { violation("a copy is not independent of its original"); }
		answer(st, {r1, r2, ax, ay});
	}

	void opAppend(std::vector<std::string> const& a)
	{
		auto x = array(a[0]), y = array(a[1]);
		auto const& cx = x;
		auto r1 = dumpA(Array{ArrayRefConst{cx.reference()}} | ArrayRefConst{y.reference()});
		auto ax = dumpA(x), ay = dumpA(y);
		Array z{cx};
		z |= ArrayRefConst{y.reference()};
		auto r2 = dumpA(z);
		if(z.size() != x.size() + y.size()) { violation("size of an array is wrong after |="); }
		Array w{x.begin(), x.end()};
		if(dumpA(w) != ax) { violation("an array made from iterators differs from its original"); }
		size_t n = 0;
		for(auto i = z.begin(); i != z.end(); i++) { ++n; }
		if(n != z.size()) { violation("iterating over an array visits the wrong number of items"); }
		z.append(json_int_t{5}).append("text");
		if(dumpA(x) != ax || dumpA(y) != ay) { violation("a copy of an array is not independent of its original"); }
		answer("K", {r1, r2, ax, ay});
	}

	template<class T, class F>
	void get(Compound const& c, std::string const& key, F f)
	{
		std::string a, b, d;
		auto one = [&](auto&& g) -> std::string {
			try
			{
				return g();
			}
			catch(KeyLookupError const&)
			{
				return "k";
			}
			catch(TypeError const&)
			{
				return "t";
			}
		};
		a = one([&]() { return "v" + f(c.template get<T>(key.c_str())); });
		auto r = c.reference();
		b = one([&]() { return "v" + f(r.template get<T>(key.c_str())); });
		d = one([&]() {
			auto x = c.template getIf<T>(key.c_str());
			auto y = r.template getIf<T>(key.c_str());
			if(x.has_value() != y.has_value()) { violation("getIf of compound and reference disagree"); }
			return x ? "v" + f(*x) : std::string{"k"};
		});
		if(a != b || a != d) { violation("get and getIf disagree: " + a + " " + b + " " + d); }
		if(c.getIfAny(key.c_str()).has_value() != (a != "k")) { violation("getIfAny disagrees with get"); }
		answer("K", {a});
	}

	void opGet(std::vector<std::string> const& a)
	{
		auto c = compound(a[0], 5, 50);
		auto& key = a[1];
		auto& type = a[2];
		if(type == "s") { get<char const*>(c, key, [](char const* x) { return std::string{x}; }); }
		else if(type == "i")
		{
			get<json_int_t>(c, key, [](json_int_t x) { return std::to_string(x); });
		}
		else if(type == "d")
		{
			get<double>(c, key, [](double x) {
				char b[40];
				snprintf(b, sizeof(b), "%.17g", x);
				return std::string{b};
			});
		}
		else if(type == "c")
		{
			get<CompoundRefConst>(c, key, [](CompoundRefConst x) { return dump(Compound{x}, false); });
		}
		else
		{
			get<ArrayRefConst>(c, key, [](ArrayRefConst x) { return dumpA(Array{x}); });
		}
	}

	void set(Compound& c, std::string const& key, char type, std::string const& val, bool as_temp)
	{
		auto k = key.c_str();
		switch(type)
		{
			case 's':
				if(as_temp) { c.set(k, val); }
				else
				{
					c.set(k, val.c_str());
				}
				break;
			case 'i': c.set(k, static_cast<json_int_t>(strtoll(val.c_str(), nullptr, 10))); break;
			case 'd': c.set(k, strtod(val.c_str(), nullptr)); break;
			case 'c':
			{
				auto v = compound(val);
				if(as_temp) { c.set(k, compound(val)); }
				else
				{
					auto before = dump(v, false);
					c.set(k, v);
					if(dump(v, false) != before) { violation("setting a value from a constant changes it"); }
					v.set("changed later", "x");
				}
				break;
			}
			case 'a':
			{
				auto v = array(val);
				if(as_temp) { c.set(k, std::move(v)); }
				else
				{
					auto before = dumpA(v);
					c.set(k, v);
					if(dumpA(v) != before) { violation("setting a value from an array changes it"); }
					v.append("changed later");
				}
				break;
			}
			case 'j': c.set(k, load(val, 1, 10).reference()); break;
		}
	}

	// S: payloads are copy-at, then key, type, value triples
	void opSet(std::vector<std::string> const& a)
	{
		auto at = atoi(a[0].c_str());
		Compound c, copy;
		std::string st = "K";
		for(size_t i = 1; i + 2 < a.size(); i += 3)
		{
			if(static_cast<int>(i / 3) == at) { copy = Compound{c.reference()}; }
			try
			{
				set(c, a[i], a[i + 1][0], a[i + 2], i % 2 == 0);
			}
			catch(std::runtime_error const& e)
			{
				st += "e" + std::to_string(i / 3);
			}
		}
		checkIteration(c);
		Compound moved{c};
		Compound other{std::move(moved)};
		if(dump(other, false) != dump(c, false)) { violation("copying and moving a compound changes it"); }
		answer(st, {dump(c, false), dump(copy, false)});
	}
}

int main(int argc, char** argv)
{
	if(argc < 2) { return 2; }
	init();
	std::ifstream in{argv[1], std::ios::binary};
	std::string line;
	long n = 0;
	while(std::getline(in, line))
	{
		std::istringstream h{line};
		std::string op;
		h >> op;
		std::vector<std::string> a;
		size_t sz;
		while(h >> sz)
		{
			std::string s(sz, 0);
			in.read(s.data(), static_cast<std::streamsize>(sz));
			a.push_back(std::move(s));
		}
		++n;
		try
		{
			if(op == "L") { opLoad(a); }
			else if(op == "M")
			{
				opMerge(a);
			}
			else if(op == "A")
			{
				opAppend(a);
			}
			else if(op == "G")
			{
				opGet(a);
			}
			else if(op == "S")
			{
				opSet(a);
			}
		}
		catch(std::runtime_error const& e)
		{
			answer("E", {e.what()});
		}
	}
	fflush(stdout);
	return 0;
}
