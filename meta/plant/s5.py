import sys; sys.path.insert(0,'/tmp/pb')
from ex import ex,SVC
import ex as _e
R="src/GraphQLResponse.cpp"; J="src/JSONResponse.cpp"; M="include/graphqlservice/internal/SortedMap.h"; S="src/Schema.cpp"; I="src/Introspection.cpp"; H="include/graphqlservice/GraphQLService.h"; G="src/GraphQLService.cpp"
HEAD='''#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/JSONResponse.h"
#include "graphqlservice/internal/SortedMap.h"
#include "graphqlservice/internal/Schema.h"
#include "graphqlservice/introspection/Introspection.h"
#include <iostream>
#include <thread>
using namespace graphql;
using V = response::Value;
static int fails = 0;
template <class A, class B> void expect(const A& a, const B& b, const char* w) { if (!(a == b)) { std::cout << "WRONG " << w << "\\n"; ++fails; } }
int main() {
%s
return fails; }
'''
def san(code, flags, srcs=""):
    def f(d):
        ex(HEAD % code, True)(d)
        s=open(d+"/demo.sh").read()
        s=s.replace("c++ -std=c++17 -O0", "c++ -std=c++17 -O1 -g "+flags).replace('"$H/demo.cpp"', '"$H/demo.cpp" '+srcs)
        open(d+"/demo.sh","w").write(s)
    return f
def B(id,prop,file,old,new,code,needs,breaks,demo=None,**k): return dict(id=id,prop=prop,file=file,old=old,new=new,demo=demo or ex(HEAD%code,True),needs=needs,breaks=breaks,**k)
BUGS=[
B("copy-drops-last-null","C23",R,'''			for (size_t i = 0; i < other.size(); ++i)
			{
				copy.push_back(Value { other[i] });
			}''','''			for (size_t i = 0; i < other.size(); ++i)
			{
				if (i + 1 == other.size() && other[i].type() == Type::Null)
				{
					break;
				}

				copy.push_back(Value { other[i] });
			}''','''V l(response::Type::List); l.emplace_back(V(1)); l.emplace_back(V()); V c { l }; expect(c.size(), size_t(2), "copy");''',"a copy of a list that ends with null","the last element is missing in the copy"),
B("int-as-float-short","C23",R,'''return static_cast<FloatType>(std::get<IntType>(_data));''','''return static_cast<float>(std::get<IntType>(_data));''','''V i(16777217); expect(i.get<response::FloatType>(), 16777217.0, "int as float");''',"an Int of more than 24 bits that is read as Float","the last digits are lost"),
B("int-set-changes-type","C23",R,'''		_data = { static_cast<FloatType>(value) };
		return;''','''		_data = { value };
		return;''','''V f(response::Type::Float); f.set<response::IntType>(3); expect(int(f.type()), int(response::Type::Float), "type");''',"an Int that is stored in a Float value","the value turns into an Int"),
B("copy-forgets-json","C23",R,'''StringData { other.get<StringType>(), other.maybe_enum() }''','''StringData { other.get<StringType>(), false }''','''V s = V(std::string("RED")).from_json(); V c { s }; expect(c.maybe_enum(), true, "enum"); expect(c == s, true, "equal");''',"a copy of a string which came from JSON","the copy does not equal its original and is no enum value any more"),
B("empty-scalar-equals-all","C23",R,'''	return !scalar && !rhs.scalar;''','''	return !scalar || !rhs.scalar;''','''V a(response::Type::Scalar), b(response::Type::Scalar); b.set<response::ScalarType>(V(1)); expect(a == b, false, "scalars");''',"an empty scalar compared with another scalar","they are equal"),
B("released-map-remembers","C24",R,'''	mapData.members.clear();

''','''''','''V m(response::Type::Map); m.emplace_back("a", V(1)); m.emplace_back("b", V(1)); auto r = m.release<response::MapType>(); bool ok = true; try { ok = m.emplace_back("b", V(2)); } catch (...) { ok = false; } expect(ok, true, "added"); expect(m.size(), size_t(1), "size"); expect(m.find("b") != m.end() && m["b"] == V(2), true, "found");''',"a map that is filled again after its content was released","names are not found or entries outside of the map are read",demo=san('''V m(response::Type::Map); m.emplace_back("a", V(1)); m.emplace_back("b", V(1)); { auto r = m.release<response::MapType>(); } m.emplace_back("b", V(2)); expect(m.find("b") != m.end() && m["b"] == V(2), true, "found");''',"-fsanitize=address -I$R/src -I$R/rapidjson/include","$R/src/GraphQLResponse.cpp")),
B("copy-index-by-length","C24",R,'''			std::map<std::string_view, size_t> members;
''','''			const auto shorter = [](std::string_view lhs, std::string_view rhs) noexcept {
				return lhs.size() == rhs.size() ? lhs < rhs : lhs.size() < rhs.size();
			};
			std::map<std::string_view, size_t, decltype(shorter)> members(shorter);
''','''V m(response::Type::Map); for (auto n : { "aaa", "bb", "c", "dddd", "e" }) m.emplace_back(n, V(1)); V c { m }; for (auto n : { "aaa", "bb", "c", "dddd", "e" }) expect(c.find(n) != c.end(), true, n);''',"a lookup in a copy of a map with names of several lengths","names that are there are not found"),
B("find-first-chars","C24",R,'''			std::string_view rhsName { rhs == std::nullopt ? name : mapData.map[*rhs].first };
			return lhsName < rhsName;
		});

	if (itr == itrEnd)
	{
		return mapData.map.cend();''','''			std::string_view rhsName { rhs == std::nullopt ? name : mapData.map[*rhs].first };
			return lhsName.substr(0, 32) < rhsName.substr(0, 32);
		});

	if (itr == itrEnd)
	{
		return mapData.map.cend();''','''V m(response::Type::Map); std::string n(40, 'a'); m.emplace_back(n + "1", V(1)); m.emplace_back(n + "2", V(2)); expect(m[n + "2"] == V(2), true, "second");''',"names that share their first 32 characters","the wrong entry is found"),
B("max-int-refused","C25",J,'''if (i > static_cast<unsigned int>(std::numeric_limits<int>::max()))''','''if (i >= static_cast<unsigned int>(std::numeric_limits<int>::max()))''','''bool ok = true; try { expect(response::parseJSON("2147483647").get<int>(), 2147483647, "max"); } catch (...) { ok = false; } expect(ok, true, "accepted");''',"the largest Int in a JSON text","it is refused"),
B("negative-as-unsigned","C25",J,'''writer.Int(response.get<IntType>());''','''writer.Uint(static_cast<unsigned>(response.get<IntType>()));''','''expect(response::toJSON(V(-1)), "-1", "negative");''',"a negative Int","its JSON is a large number"),
B("empty-array-null","C25",J,'''	bool EndArray(rapidjson::SizeType /*count*/)
	{
		setValue(getResponse());''','''	bool EndArray(rapidjson::SizeType count)
	{
		auto elements = getResponse();

		setValue(count ? std::move(elements) : Value());''','''auto v = response::parseJSON("{\\"a\\":[]}"); expect(int(v["a"].type()), int(response::Type::List), "list");''',"an empty array in a JSON text","it is read as null"),
B("long-names-equivalent","C27",M,'''return lhs.size() == rhs.size() ? lhs < rhs : lhs.size() < rhs.size();''','''return lhs.size() == rhs.size() ? lhs.substr(0, 48) < rhs.substr(0, 48)
										 : lhs.size() < rhs.size();''','''graphql::internal::string_view_map<int> m; std::string n(60, 'a'), a = n + "1", b = n + "2"; m.emplace(a, 1); m.emplace(b, 2); expect(m.size(), size_t(2), "names");''',"two long names of the same length with a common beginning","the second one is not added"),
B("set-equality-by-ends","C27",M,'''	bool operator==(const sorted_set& rhs) const noexcept
	{
		return _data == rhs._data;''','''	bool operator==(const sorted_set& rhs) const noexcept
	{
		return _data.size() == rhs._data.size()
			&& (_data.empty()
				|| (_data.front() == rhs._data.front() && _data.back() == rhs._data.back()));''','''graphql::internal::sorted_set<int> a { 1, 2, 4 }, b { 1, 3, 4 }; expect(a == b, false, "sets");''',"two sets with common first and last elements","they are equal"),
B("erase-next-key","C27",M,'''		if (itr == itrEnd)
		{
			return _data.end();
		}

		return _data.erase(itr);
	}

	template <typename KeyArg>
	const_iterator erase(KeyArg&& keyArg) noexcept''','''		if (itr == _data.end())
		{
			return _data.end();
		}

		return _data.erase(itr);
	}

	template <typename KeyArg>
	const_iterator erase(KeyArg&& keyArg) noexcept''','''graphql::internal::sorted_map<int, int> m { { 1, 1 }, { 3, 3 } }; m.erase(2); expect(m.size(), size_t(2), "erase");''',"erasing a key that is not there, but a larger one is","the entry of the larger key is gone"),
B("empty-reason-listed","C29",I,'''		if (deprecated || !value->deprecationReason())''','''		if (deprecated || !value->deprecationReason() || value->deprecationReason()->empty())''','''auto e = schema::EnumType::Make("E", ""); e->AddEnumValues({ { "A", "", std::make_optional<std::string_view>("") }, { "B", "", std::nullopt } });
struct T : introspection::Type { using introspection::Type::Type; using introspection::Type::getEnumValues; };
T t(std::static_pointer_cast<const schema::BaseType>(e)); response::Value none(response::Type::Map); service::SelectionSetParams ssp { service::ResolverContext::Query, nullptr, none, none, none, none, {}, std::launch::deferred };
auto r = t.getEnumValues(service::FieldParams(service::SelectionSetParams(ssp), V(response::Type::Map)), std::optional<bool>(false)); expect(r.get()->size(), size_t(1), "values");''',"an enum value that is deprecated with an empty reason","it is listed although deprecated ones are not asked for"),
B("interface-skips-next","C29",S,'''	for (const auto& interface : _interfaces)
	{
		std::const''','''	for (const auto& interface : _interfaces)
	{
		if (interface->possibleTypes().size() > 7)
		{
			continue;
		}

		std::const''','''auto i = schema::InterfaceType::Make("I", ""); std::vector<std::shared_ptr<schema::ObjectType>> o; for (int n = 0; n < 9; ++n) { o.push_back(schema::ObjectType::Make("O", "")); o.back()->AddInterfaces({ i }); } expect(i->possibleTypes().size(), size_t(9), "types");''',"an interface with more than eight types","it does not know the others"),
B("null-default-hidden","C29",I,'''	return { defaultValue.empty() ? std::nullopt''','''	return { defaultValue.empty() || defaultValue == "null" ? std::nullopt''','''auto i = schema::InputValue::Make("i", "", std::weak_ptr<const schema::BaseType>(), "null");
struct T : introspection::InputValue { using introspection::InputValue::InputValue; using introspection::InputValue::getDefaultValue; };
T t(std::static_pointer_cast<const schema::InputValue>(i)); response::Value none(response::Type::Map); service::SelectionSetParams ssp { service::ResolverContext::Query, nullptr, none, none, none, none, {}, std::launch::deferred };
auto r = t.getDefaultValue(service::FieldParams(service::SelectionSetParams(ssp), V(response::Type::Map))); expect(r.get().value_or("-"), "null", "default");''',"an argument with the default value null","introspection tells that it has none"),
B("wrapper-found-unlocked","C30",S,'''	std::shared_lock shared_lock { mutex };
	std::unique_lock unique_lock { mutex, std::defer_lock };
	auto itr = wrappers.find(ofType);
''','''	auto itr = wrappers.find(ofType);
	std::shared_lock shared_lock { mutex };
	std::unique_lock unique_lock { mutex, std::defer_lock };
''','',"two threads that wrap types for the first time","the cache is read while another thread grows it",
 demo=san('''auto s = std::make_shared<schema::Schema>(); std::vector<std::shared_ptr<schema::ObjectType>> t; for (int n = 0; n < 400; ++n) t.push_back(schema::ObjectType::Make("T", ""));
std::vector<std::thread> w; for (int k = 0; k < 4; ++k) w.emplace_back([&, k] { for (int n = 0; n < 400; ++n) { auto x = s->WrapType(introspection::TypeKind::LIST, t[k & 1 ? n : 399 - n]); if (x->ofType().lock() != t[k & 1 ? n : 399 - n]) std::abort(); } }); for (auto& x : w) x.join();''',"-fsanitize=thread","$R/src/Schema.cpp")),
B("wrapper-replaced","C30",S,'''		std::tie(itr, std::ignore) = wrappers.emplace(ofType, WrapperType::Make(kind, ofType));
''','''		auto& wrapper = wrappers[ofType];

		wrapper = WrapperType::Make(kind, ofType);
		return wrapper;
''','',"two threads that wrap the same type at the same time","the wrapper one of them got is replaced, so that types that refer to it lose it",
 demo=san('''int bad = 0; for (int round = 0; round < 3000 && !bad; ++round) { auto s = std::make_shared<schema::Schema>(); auto t = schema::ObjectType::Make("T", ""); std::atomic<int> go { 0 }; std::shared_ptr<const schema::BaseType> got[6]; std::vector<std::thread> w; for (int k = 0; k < 6; ++k) w.emplace_back([&, k] { ++go; while (go < 6); got[k] = s->WrapType(introspection::TypeKind::LIST, t); }); for (auto& x : w) x.join(); for (auto& g : got) if (g != got[0]) ++bad; } expect(bad, 0, "replaced");''',"-O1 -include atomic","$R/src/Schema.cpp")),
B("subscribe-drops-service","C09",G,'''	return std::async(launch, [spThis = shared_from_this(), launch, key]() {
		const''','''	return std::async(launch, [spThis = this, launch, key]() {
		const''','',"a caller that drops the service before the unsubscription ran","it uses the freed service",
 demo=san('''struct Svc : service::Request { Svc() : service::Request(service::TypeMap { { "subscription", nullptr } }, std::make_shared<schema::Schema>()) {} ~Svc() { gone = true; } bool gone = false; };
bool dead = false; struct Probe : service::Request { bool& d; Probe(bool& x) : service::Request(service::TypeMap {}, std::make_shared<schema::Schema>()), d(x) {} ~Probe() { d = true; } };
auto s = std::make_shared<Probe>(dead); auto f = s->unsubscribe(std::launch::deferred, service::SubscriptionKey {}); s.reset(); expect(dead, false, "service alive"); if (!dead) f.get();''',"")),
dict(id="operation-object-borrowed",prop="C09",file=G,old="operation = itr->second](const peg", new="operation = itr->second.get()](const peg",
 demo=ex('''  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"human", objField(human("bob"))} });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", nullptr}, {"subscription", nullptr} });
  auto ast = peg::parseString("{ human { name } }");
  auto f = svc->resolve(nullptr, ast, "", V(response::Type::Map));
  std::weak_ptr<Obj> w = q; q.reset(); svc.reset();
  if (w.expired()) { std::cout << "the root object is gone before its fields are resolved\\n"; ++fails; } else f.get();
'''), needs="a caller that drops the service before it gets the result", breaks="the root object is freed before its fields are resolved"),
]
