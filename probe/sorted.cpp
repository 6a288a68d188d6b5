// Instantiates the sorted containers, so that their members can be analysed.
#include <string>
#include <string_view>

#include "graphqlservice/internal/SortedMap.h"

namespace probe {

using namespace graphql::internal;

using Map = sorted_map<std::string, int>;
using Views = string_view_map<int>;
using Set = sorted_set<std::string>;
using ViewSet = string_view_set;

template <class M>
int useMap(std::string_view name, typename M::const_iterator at)
{
	M map { { "a", 1 }, { "b", 2 } };
	const M& fixed = map;
	int n = static_cast<int>(map.size() + map.capacity()) + map.empty();

	map.reserve(3);
	n += map.emplace(name, 3).second;
	n += map.find(name) == map.end();
	n += fixed.find(typename M::vector_type::value_type::first_type { name }) == fixed.begin();
	n += map[name] + map.at(name);
	n += fixed.rbegin() == fixed.rend();
	map.erase(name);
	map.erase(typename M::vector_type::value_type::first_type { name });
	map.erase(at);
	n += map == fixed;
	map.clear();

	return n;
}

template <class S>
int useSet(std::string_view name, typename S::const_iterator at)
{
	S set { "a", "b" };
	const S& fixed = set;
	int n = static_cast<int>(set.size() + set.capacity()) + set.empty();

	set.reserve(3);
	n += set.emplace(typename S::vector_type::value_type { name }).second;
	n += set.find(name) == set.end();
	n += fixed.find(typename S::vector_type::value_type { name }) == fixed.begin();
	n += fixed.rbegin() == fixed.rend();
	set.erase(name);
	set.erase(typename S::vector_type::value_type { name });
	set.erase(at);
	n += set == fixed;
	set.clear();

	return n;
}

template int useMap<Map>(std::string_view, Map::const_iterator);
template int useMap<Views>(std::string_view, Views::const_iterator);
template int useSet<Set>(std::string_view, Set::const_iterator);
template int useSet<ViewSet>(std::string_view, ViewSet::const_iterator);

} // namespace probe
