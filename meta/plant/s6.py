import sys; sys.path.insert(0,'/tmp/pb')
from genx import gdemo
SG="src/SchemaGenerator.cpp"; SL="src/SchemaLoader.cpp"
ONE='''
struct Q : demo::object::Query { %s };
int main() { Operations svc(std::make_shared<Q>()); %s return fails; }
'''
def B(id,prop,file,old,new,schema,code,needs,breaks,opts="",**k): return dict(id=id,prop=prop,file=file,old=old,new=new,demo=gdemo(schema,code,opts),needs=needs,breaks=breaks,**k)
BUGS=[
B("nested-enum-default-text","C32",SG,'''				<< padding << R"cpp(		entry = response::Value(response::Type::EnumValue);
''','''				<< padding << (level == 0 ? R"cpp(		entry = response::Value(response::Type::EnumValue);)cpp" : R"cpp(		entry = response::Value(response::Type::String);)cpp") << R"cpp(
''','''enum Mode { SLOW FAST }
type Query { f(l: [Mode!]! = [FAST, SLOW]): Int! }
schema { query: Query }
''',ONE%('''service::FieldResult<int> getF(service::FieldParams&&, std::vector<demo::Mode>&& l) const override { return int(l.size()) * 10 + int(l[0]); }''','''expect(run(svc, "{f}"), R"({"data":{"f":21}})");'''),"a default value with an enum value inside of a list or input object","the default is refused when the argument is left out"),
B("empty-list-default-null","C32",SG,'''			argumentDefaultValue << padding << R"cpp(		entry = []()
)cpp" << padding << R"cpp(		{
)cpp" << padding << R"cpp(			response::Value elements(response::Type::List);''','''			if (elements.empty())
			{
				argumentDefaultValue << padding << R"cpp(		entry = {};
)cpp";
				break;
			}

			argumentDefaultValue << padding << R"cpp(		entry = []()
)cpp" << padding << R"cpp(		{
)cpp" << padding << R"cpp(			response::Value elements(response::Type::List);''','''type Query { f(l: [Int!] = []): String! }
schema { query: Query }
''',ONE%('''service::FieldResult<std::string> getF(service::FieldParams&&, std::optional<std::vector<int>>&& l) const override { return std::string(l ? "list" : "null"); }''','''expect(run(svc, "{f}"), R"({"data":{"f":"list"}})"); expect(run(svc, "{f(l:null)}"), R"({"data":{"f":"null"}})");'''),"an argument with the default [] which a request leaves out","the getter gets no list instead of an empty one"),
B("interface-deprecation-lost","C31",SG,'''					if (interfaceField.deprecationReason)''','''					if (interfaceField.deprecationReason && interfaceField.arguments.empty())''','''interface Node { id: Int old(a: Int): Int @deprecated(reason: "gone") }
type Query implements Node { id: Int old(a: Int): Int @deprecated(reason: "gone") }
schema { query: Query }
''',ONE%('','''expect(run(svc, "{__type(name:\\"Node\\"){fields{name}}}"), R"({"data":{"__type":{"fields":[{"name":"id"}]}}})");'''),"a deprecated field of an interface which takes arguments","introspection does not know it is deprecated"),
B("second-union-forgotten","C32",SL,'''			_objectTypes[itr->second].unions.push_back(entry.type);''','''			auto& unions = _objectTypes[itr->second].unions;

			if (unions.size() < 3)
			{
				unions.push_back(entry.type);
			}''','''type A { x: Int! }
union U1 = A
union U2 = A
union U3 = A
union U4 = A
type Query { a: A! }
schema { query: Query }
''','''
struct OA : demo::object::A { service::FieldResult<int> getX(service::FieldParams&&) const override { return 1; } };
struct Q : demo::object::Query { service::FieldResult<std::shared_ptr<demo::object::A>> getA(service::FieldParams&&) const override { return std::make_shared<OA>(); } };
int main() { Operations svc(std::make_shared<Q>()); expect(run(svc, "{a{... on U4{... on A{x}}}}"), R"({"data":{"a":{"x":1}}})"); return fails; }
''',"an object type which is a member of more than three unions","fragments on the fourth union are skipped"),
B("unlocked-plain-getters","C30",None,None,None,'''type Query { slow: Int! }
schema { query: Query }
''','''
struct Q : demo::object::Query { mutable std::atomic<int> in { 0 }; mutable std::atomic<bool> both { false };
service::FieldResult<int> getSlow(service::FieldParams&&) const override { if (++in > 1) both = true; std::this_thread::sleep_for(std::chrono::milliseconds(200)); --in; return 1; } };
int main() { auto q = std::make_shared<Q>(); Operations svc(q); std::thread a([&] { run(svc, "{slow}"); }), b([&] { run(svc, "{slow}"); }); a.join(); b.join(); expect(q->both ? "both" : "alone", "alone"); return fails; }
''',"two requests to one object at the same time, for a field without arguments","two getters of the object run at once",edits=[(SG,'''		sourceFile << R"cpp(	std::unique_lock resolverLock(_resolverMutex);
	auto directives = std::move(params.fieldDirectives);
	auto result = )cpp"''','''		sourceFile << R"cpp(	std::unique_lock resolverLock(_resolverMutex);
	auto directives = std::move(params.fieldDirectives);
)cpp";

		if (outputField.arguments.empty())
		{
			sourceFile << R"cpp(	resolverLock.unlock();
)cpp";
		}

		sourceFile << R"cpp(	auto result = )cpp"'''),(SG,'''		sourceFile << R"cpp();
	resolverLock.unlock();

	return )cpp"''','''		sourceFile << R"cpp();
)cpp";

		if (!outputField.arguments.empty())
		{
			sourceFile << R"cpp(	resolverLock.unlock();
)cpp";
		}

		sourceFile << R"cpp(
	return )cpp"''')]),
B("resolver-by-cpp-name","C32",SG,'''			output << R"cpp(		{ R"gql()cpp" << outputField.name
''','''			output << R"cpp(		{ R"gql()cpp" << outputField.cppName
''','''type Query { double__up: Int! }
schema { query: Query }
''',ONE%('''service::FieldResult<int> getDouble_up(service::FieldParams&&) const override { return 2; }''','''expect(run(svc, "{double__up}"), R"({"data":{"double__up":2}})");'''),"a field whose name has two underscores in a row","the field is validated but not found when it is resolved"),
B("extension-interfaces-lost","C31",SL,'''				objectType.interfaces.push_back(child.string_view());''','''				if (objectType.fields.empty())
				{
					objectType.interfaces.push_back(child.string_view());
				}''','''interface Node { id: Int! }
type Thing { id: Int! }
extend type Thing implements Node { more: Int }
type Query { t: Thing! }
schema { query: Query }
''','''
struct OT : demo::object::Thing { service::FieldResult<int> getId(service::FieldParams&&) const override { return 1; } };
struct Q : demo::object::Query { service::FieldResult<std::shared_ptr<demo::object::Thing>> getT(service::FieldParams&&) const override { return std::make_shared<OT>(); } };
int main() { Operations svc(std::make_shared<Q>()); expect(run(svc, "{t{... on Node{id}}}"), R"({"data":{"t":{"id":1}}})"); expect(run(svc, "{__type(name:\\"Thing\\"){interfaces{name}}}"), R"({"data":{"__type":{"interfaces":[{"name":"Node"}]}}})"); return fails; }
''',"an interface which is only added by an extension of the type","the type does not implement it"),
B("argument-default-of-first","C31",SL,'''				inputType.fields.reserve(inputType.fields.size() + fields.size());
				for (auto& field : fields)
				{
					inputType.fields.push_back(std::move(field));
				}''','''				if (inputType.fields.empty())
				{
					inputType.fields = std::move(fields);
				}''','''input In { a: Int! }
extend input In { b: Int! = 3 }
type Query { f(i: In!): Int! }
schema { query: Query }
''','''
struct Q : demo::object::Query { service::FieldResult<int> getF(service::FieldParams&&, demo::In&& i) const override { return i.a; } };
int main() { Operations svc(std::make_shared<Q>()); expect(run(svc, "{f(i:{a:1,b:2})}"), R"({"data":{"f":1}})"); return fails; }
''',"an input type which is extended","the fields of the extension are refused"),
B("mutation-accessor-query","C32",SL,'''			? std::make_optional<std::string_view>(strApply)''','''			? std::make_optional<std::string_view>(entry.interfaces.empty() ? strApply : strGet)''','''interface Node { id: Int! }
type Query { q: Int! }
type Change implements Node { id: Int! set(x: Int!): Int! }
schema { query: Query mutation: Change }
''','''
struct Q : demo::object::Query { service::FieldResult<int> getQ(service::FieldParams&&) const override { return 1; } };
struct M : demo::object::Change { service::FieldResult<int> getId(service::FieldParams&&) const override { return 1; } service::FieldResult<int> applySet(service::FieldParams&&, int&& x) const override { return x; } };
int main() { Operations svc(std::make_shared<Q>(), std::make_shared<M>()); expect(run(svc, "mutation{set(x:2)}"), R"({"data":{"set":2}})"); return fails; }
''',"a mutation type which implements an interface","its getters are named like those of a query and do not override anything"),
B("triple-list-modifiers","C32",SG,'''			case service::TypeModifier::List:
				typeModifiers << R"cpp(service::TypeModifier::List)cpp";''','''			case service::TypeModifier::List:
				typeModifiers << (modifiers.size() > 4 && &modifier == &modifiers.back() ? R"cpp(service::TypeModifier::Nullable)cpp" : R"cpp(service::TypeModifier::List)cpp");''','','',"",""),
]
BUGS=[b for b in BUGS if b["needs"]]
