// C25: PushOnlyAllocator and ByteObjectMap
#include "tracked.h"
#include <map>
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C25,
	"Each case creates up to 400 (sometimes 130000) objects in an allocator with a generated block size, writes to each, and compares addresses and content with a model after every step; or creates objects that own memory in up to three allocators that are destroyed at any time; or sets and gets up to 600 generated byte keys in up to four maps sharing one allocator and compares every key of every map with a model. "
	"Non-trivial: at least three blocks were used, or at least two maps have more than 10 keys and a key was overwritten.");

namespace { struct Owner { Tr t; WString text; int n = 3; int* list[4] = {}; }; }
// objects that own memory: all of them die once, with the allocator
PBT_TEST(C25, owners, 8000, pbt::F_NONE)
{
	Tr::Reset(); bool several = false;
	{
		int k = 1 + (int)c.draw(3); std::vector<std::unique_ptr<PushOnlyAllocator<Owner>>> as; std::vector<std::vector<Owner*>> m(k); std::vector<vint> block; for (int i = 0; i < k; i++) { block.push_back(1 + (vint)c.size(20)); as.push_back(std::make_unique<PushOnlyAllocator<Owner>>(block[i])); }
		size_t steps = c.size(120), made = 0;
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(k); if (!as[i]) continue;
			if (c.chance(1, 30)) { as[i] = nullptr; made -= m[i].size(); m[i].clear(); CheckFault(c, "destruction of an allocator"); continue; }
			Owner* p = as[i]->Create(); PBT_CHECK(p && p->t.Value() == 0 && p->text == WString::Empty && p->n == 3 && !p->list[0] && !p->list[3], "a created object is not a fresh one");
			int id = (int)s * 10 + i; p->t = Tr(id); p->text = itow(id); p->n = id; m[i].push_back(p); made++; CheckFault(c, "Create");
			PBT_CHECK(Tr::live >= (long)made, "%ld objects are alive, %zu were created", Tr::live, made);
			int j = (int)c.draw(k); if (m[j].size()) { size_t q = c.draw(m[j].size()); Owner* o = as[j]->Get((vint)q); PBT_CHECK(o == m[j][q] && o->t.Value() == o->n && o->text == itow(o->n) && o->n % 10 == j, "object %zu of allocator %d is damaged", q, j); }
			if ((vint)m[i].size() > 2 * block[i]) several = true;
		}
		c.note("%d allocators, %zu objects", k, made);
	}
	CheckFault(c, "destruction"); PBT_CHECK(Tr::live == 0, "%ld objects are alive after their allocators", Tr::live); if (several) c.nontrivial();
}
// the default block size and very many objects
PBT_TEST(C25, many_objects, 60, pbt::F_NOFUZZ)
{
	PushOnlyAllocator<uint32_t> d; PushOnlyAllocator<uint32_t> e((vint)(1 + c.draw(70000))); auto& a = c.boolean() ? d : e; size_t n = c.chance(1, 2) ? GenHugeSize(c) : c.draw(3000); std::vector<uint32_t*> m; m.reserve(n);
	for (size_t i = 0; i < n; i++) { uint32_t* p = a.Create(); *p = (uint32_t)(i * 2654435761u); m.push_back(p); }
	for (size_t i = 0; i < n; i++) if (a.Get((vint)i) != m[i] || *m[i] != (uint32_t)(i * 2654435761u)) c.fail("object %zu of %zu was overwritten or moved", i, n);
	PBT_CHECK(a.Get((vint)n) == nullptr, "Get past the end is not null"); std::sort(m.begin(), m.end()); for (size_t i = 1; i < n; i++) if (m[i] == m[i - 1]) c.fail("an object was created twice");
	c.note("%zu objects", n); if (n > 1000) c.nontrivial();
}
namespace { struct Item { long a = 7; char b[5] = { 1, 2, 3, 4, 5 }; }; }

PBT_TEST(C25, allocator, 20000, pbt::F_NONE)
{
	vint block = 1 + (vint)c.size(20); PushOnlyAllocator<Item> alloc(block); std::vector<Item*> m; std::vector<long> val;
	size_t n = c.size(c.boolean() ? 400 : 40);
	PBT_CHECK(alloc.Get(0) == nullptr, "an object exists before the first Create");
	for (size_t i = 0; i < n; i++)
	{
		Item* p = alloc.Create(); PBT_CHECK(p, "Create returned nothing");
		PBT_CHECK(p->a == 7 && p->b[0] == 1 && p->b[4] == 5, "object %zu is not a fresh object", i);
		for (Item* q : m) PBT_CHECK(q != p, "Create returned an object twice");
		m.push_back(p); val.push_back((long)i * 31); p->a = val.back(); memset(p->b, (char)i, 5);
		size_t k = c.draw(m.size()); PBT_CHECK(alloc.Get((vint)k) == m[k], "Get(%zu) is not the object created at that position", k);
		PBT_CHECK(alloc.Get((vint)m.size()) == nullptr && alloc.Get((vint)m.size() + block) == nullptr, "Get past the end is not null");
		if (c.chance(1, 16)) { val[k] = (long)c.draw(1000000); m[k]->a = val[k]; }
	}
	for (size_t i = 0; i < m.size(); i++) { PBT_CHECK(alloc.Get((vint)i) == m[i], "Get(%zu) changed", i); PBT_CHECK(m[i]->a == val[i] && m[i]->b[2] == (char)i, "object %zu was overwritten", i); PBT_CHECK(((uintptr_t)m[i] % alignof(Item)) == 0, "alignment"); }
	c.note("%zu objects in blocks of %d", n, (int)block);
	if ((vint)n > 2 * block) c.nontrivial();
}

PBT_TEST(C25, map, 15000, pbt::F_NONE)
{
	const int N = 1 + (int)c.draw(4); vint block = 1 + (vint)c.size(60);
	ByteObjectMap<int>::Allocator alloc(block); std::vector<std::unique_ptr<ByteObjectMap<int>>> maps; std::vector<std::map<int, int*>> m(N); int values[16]; bool overwritten = false;
	for (int i = 0; i < N; i++) maps.push_back(std::make_unique<ByteObjectMap<int>>());
	size_t steps = 1 + c.size(c.boolean() ? 600 : 60);
	for (size_t s = 0; s < steps; s++)
	{
		int i = (int)c.draw(N); int key = c.boolean() ? (int)c.draw(256) : (int)(c.draw(4) * 64 + c.draw(4)); 
		if (c.chance(1, 4)) { int* p = maps[i]->Get((vuint8_t)key); auto it = m[i].find(key); PBT_CHECK(p == (it == m[i].end() ? nullptr : it->second), "map %d key %d", i, key); continue; }
		int* v = c.chance(1, 8) ? nullptr : &values[c.draw(16)]; if (m[i].count(key) && m[i][key] != v) overwritten = true;
		maps[i]->Set((vuint8_t)key, v, alloc); m[i][key] = v;
		PBT_CHECK(maps[i]->Get((vuint8_t)key) == v, "map %d key %d was not set", i, key);
	}
	int big = 0;
	for (int i = 0; i < N; i++) { for (int k = 0; k < 256; k++) { auto it = m[i].find(k); PBT_CHECK(maps[i]->Get((vuint8_t)k) == (it == m[i].end() ? nullptr : it->second), "map %d key %d has another value", i, k); } if (m[i].size() > 10) big++; }
	c.note("%d maps, %zu steps, blocks of %d", N, steps, (int)block);
	if (big >= 2 && overwritten) c.nontrivial();
}
