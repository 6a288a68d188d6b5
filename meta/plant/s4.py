import sys; sys.path.insert(0,'/tmp/pb')
from ex import ex,SVC
F="src/GraphQLService.cpp"; H="include/graphqlservice/GraphQLService.h"
def B(id,prop,old,new,demo,needs,breaks,file=F,**k): return dict(id=id,prop=prop,file=file,old=old,new=new,demo=ex(demo,k.pop("raw",False)),needs=needs,breaks=breaks,**k)
Q='''  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", objField(dog("rex"))}, {"human", objField(human("bob"))} });
  auto m = std::make_shared<Obj>(TypeNames{"Mutation"}, ResolverMap{ {"mutateDog", objField(dog("mut"))} });
  auto s = std::make_shared<Obj>(TypeNames{"Subscription"}, ResolverMap{ {"newMessage", objField(message("hi"))} });
'''+SVC
ARG='''  auto put = [](V&& v) { V a(response::Type::Map); a.emplace_back("x", std::move(v)); return a; };
'''
ARGS="""
  std::string seen = "none";
  auto d = std::make_shared<Obj>(TypeNames{"Dog"}, ResolverMap{ {"isHousetrained", [&seen](ResolverParams&& p) { seen = js(V(p.arguments)); return BooleanResult::convert(FieldResult<bool>(true), std::move(p)); }} });
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", objField(d)} });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", nullptr}, {"subscription", nullptr} });
  auto run2 = [&](const std::string& t) { auto a = peg::parseString(t); try { js(svc->resolve(nullptr, *a.root, "", V(response::Type::Map)).get()); } catch (const std::exception& e) { std::cout << e.what() << "\\n"; } };
"""
SUB='''  auto sub = [&](const std::string& q, int* n) { return svc->subscribe(SubscriptionParams { nullptr, peg::parseString(q), "", V(response::Type::Map) }, [n](std::future<V> f) { f.get(); ++*n; }); };
'''
BUGS=[
B("empty-list-is-null","C12",'''			|| valueItr->second.type() == response::Type::Null)
		{
			return std::nullopt;''','''			|| valueItr->second.type() == response::Type::Null
			|| (valueItr->second.type() == response::Type::List && valueItr->second.size() == 0))
		{
			return std::nullopt;''',ARG+'''
  auto r = IntArgument::require<TypeModifier::Nullable, TypeModifier::List>("x", put(V(response::Type::List)));
  EXPECT(r ? "list" : "null", "list");
''',"an empty list for a nullable list argument","the resolver is told that the argument is null",file=H),
B("float-truncates-int","C12",'''	if (value.type() != response::Type::Float && value.type() != response::Type::Int)
	{
		throw schema_exception { { "not a float" } };
	}
''','''	if (value.type() != response::Type::Float && value.type() != response::Type::Int)
	{
		throw schema_exception { { "not a float" } };
	}

	if (value.type() == response::Type::Int && value.get<response::IntType>() < 0)
	{
		return 0.0;
	}
''',ARG+'''
  EXPECT(std::to_string(FloatArgument::require("x", put(V(-3)))), std::to_string(-3.0));
''',"a negative integer for a Float argument","the resolver gets zero"),
B("enum-read-as-string","C12",'''response::StringType ModifiedArgument<response::StringType>::convert(const response::Value& value)
{
	if (value.type() != response::Type::String)''','''response::StringType ModifiedArgument<response::StringType>::convert(const response::Value& value)
{
	if (value.type() != response::Type::String && value.type() != response::Type::EnumValue)''',ARG+'''
  V e(response::Type::EnumValue); e.set<std::string>("RED");
  std::string r; try { r = StringArgument::require("x", put(std::move(e))); } catch (const schema_exception&) { r = "refused"; }
  EXPECT(r, "refused");
''',"an enum value for a String argument","it is accepted as a string"),
B("list-element-nullable-once","C12",'''				response::Value single(response::Type::Map);

				single.emplace_back(std::string { name }, response::Value(element));

				return require<Other...>(name, single);''','''				response::Value single(response::Type::Map);

				if (element.type() != response::Type::Null)
				{
					single.emplace_back(std::string { name }, response::Value(element));
				}
				else
				{
					single.emplace_back(std::string { name }, response::Value(response::Type::List));
				}

				return require<Other...>(name, single);''',ARG+'''
  V l(response::Type::List); l.emplace_back(V()); 
  auto r = IntArgument::require<TypeModifier::List, TypeModifier::Nullable, TypeModifier::List>("x", put(std::move(l)));
  EXPECT(r.at(0) ? "list" : "null", "null");
''',"a null element in a list of nullable lists","the element arrives as an empty list",file=H),
B("find-only-schema-errors","C12",'''		try
		{
			return { require<Modifier, Other...>(name, arguments), true };
		}
		catch (const std::exception&)''','''		try
		{
			return { require<Modifier, Other...>(name, arguments), true };
		}
		catch (const std::runtime_error&)
		{
			return { typename ArgumentTraits<Type, Modifier, Other...>::type {}, false };
		}
		catch (const schema_exception&)''',ARG+'''
  auto r = IntArgument::find<TypeModifier::List>("x", put(V(1)));
  EXPECT(r.second ? "found" : "not", "not");
''',"looking for a list argument with modifiers when the value is no list","the program is terminated",file=H),
B("null-object-promised","C13",'''		auto wrappedResult = resultFuture.get();

		if (!wrappedResult)
		{
			return ResolverResult {};
		}
''','''		const bool promised = resultFuture.is_future();
		auto wrappedResult = resultFuture.get();

		if (!wrappedResult)
		{
			if (promised)
			{
				return ResolverResult { response::Value(response::Type::Map) };
			}

			return ResolverResult {};
		}
''','''
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", [](ResolverParams&& p) {
     return ObjectResult::convert(FieldResult<ObjP>(std::async(std::launch::deferred, []() { return ObjP(); })), std::move(p)); }} });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", nullptr}, {"subscription", nullptr} });
  EXPECT(run(*svc, "{ dog { name } }"), "{\\"data\\":{\\"dog\\":null}}");
''',"a field whose future resolves to no object","the field is an empty object instead of null"),
B("empty-optional-list","C13",'''			[](auto&& wrappedFuture, ResolverParams&& wrappedParams) {
				auto wrappedResult = wrappedFuture.get();

				if (!wrappedResult)
				{
					return ResolverResult {};
				}

				std::promise<typename ResultTraits<Type, Other...>::type> promise;

				promise.set_value(std::move(*wrappedResult));
''','''			[](auto&& wrappedFuture, ResolverParams&& wrappedParams) {
				auto wrappedResult = wrappedFuture.get();

				if (!wrappedResult)
				{
					if (wrappedParams.errorPath && std::holds_alternative<size_t>(wrappedParams.errorPath->segment))
					{
						return ResolverResult { response::Value(response::Type::List) };
					}

					return ResolverResult {};
				}

				std::promise<typename ResultTraits<Type, Other...>::type> promise;

				promise.set_value(std::move(*wrappedResult));
''','''
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", objField(std::make_shared<Obj>(TypeNames{"Dog"}, ResolverMap{ {"name", [](ResolverParams&& p) {
     return IntResult::convert<TypeModifier::List, TypeModifier::Nullable, TypeModifier::List>(FieldResult<std::vector<std::optional<std::vector<int>>>>(std::vector<std::optional<std::vector<int>>>{ std::nullopt, std::vector<int>{1} }), std::move(p)); }} })) } });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", nullptr}, {"subscription", nullptr} });
  EXPECT(run(*svc, "{ dog { name } }"), "{\\"data\\":{\\"dog\\":{\\"name\\":[null,[1]]}}}");
''',"a list of nullable lists with a null element","the element is an empty list instead of null",file=H),
B("boolean-leaf-unchecked","C13",'''	FieldResult<response::BooleanType>&& result, ResolverParams&& params)
{
	blockSubFields(params);
''','''	FieldResult<response::BooleanType>&& result, ResolverParams&& params)
{
	if (!result.is_future())
	{
		blockSubFields(params);
	}
''','''
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", [](ResolverParams&& p) {
     return BooleanResult::convert(FieldResult<bool>(std::async(std::launch::deferred, []() { return true; })), std::move(p)); }} });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", nullptr}, {"subscription", nullptr} });
  auto r = run(*svc, "{ dog { name } }");
  if (r.find("errors") == std::string::npos) { std::cout << r << "\\n"; ++fails; }
''',"a Boolean given as a future for a field with a selection","no error is reported"),
B("id-as-bytes-empty","C13",'''		[](response::IdType&& value, const ResolverParams&) {
			return response::Value(value);''','''		[](response::IdType&& value, const ResolverParams&) {
			return value.empty() ? response::Value() : response::Value(value);''','''
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", objField(std::make_shared<Obj>(TypeNames{"Dog"}, ResolverMap{ {"name", [](ResolverParams&& p) {
     return IdResult::convert(FieldResult<response::IdType>(response::IdType{}), std::move(p)); }} })) } });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", nullptr}, {"subscription", nullptr} });
  EXPECT(run(*svc, "{ dog { name } }"), "{\\"data\\":{\\"dog\\":{\\"name\\":\\"\\"}}}");
''',"an empty ID","the field is null instead of an empty string"),
B("listener-kept-after-unsubscribe","C07",'''	listener.erase(key);
	if (listener.empty())
	{
		_listeners.erase(listenerKey);
	}

	_subscriptions.erase(itrSubscription);
''','''	if (_subscriptions.size() < 3)
	{
		listener.erase(key);
	}
	if (listener.empty())
	{
		_listeners.erase(listenerKey);
	}

	_subscriptions.erase(itrSubscription);
''',Q+SUB+'''
  int n[4] = {};
  auto a = sub("subscription { newMessage { body } }", n), b = sub("subscription { newMessage { body } }", n + 1), c = sub("subscription { newMessage { body } }", n + 2);
  svc->unsubscribe(c); svc->unsubscribe(b); auto d = sub("subscription { newMessage { body } }", n + 3); svc->unsubscribe(d); (void)a;
  (void) c;
  int x = 0; pid_t p = 0; (void)x; (void)p;
  svc->deliver("newMessage", nullptr);
  EXPECT(std::to_string(n[0]) + std::to_string(n[1]) + std::to_string(n[2]) + std::to_string(n[3]), "1000");
''',"unsubscribing while there are three or more subscriptions","the listener of the field keeps the key and the next event reaches a subscription that does not exist"),
B("key-reused-after-last","C07",'''		_nextKey = _subscriptions.rbegin()->first + 1;''','''		_nextKey = _subscriptions.rbegin()->first + (_subscriptions.size() > 1 ? 1 : 0);''',Q+SUB+'''
  int n[4] = {};
  auto a = sub("subscription { newMessage { body } }", n), b = sub("subscription { newMessage { body } }", n + 1);
  svc->unsubscribe(b); auto c = sub("subscription { newMessage { body } }", n + 2);
  if (a == c) { std::cout << "same key\\n"; ++fails; }
  svc->deliver("newMessage", nullptr);
  EXPECT(std::to_string(n[0]) + std::to_string(n[1]) + std::to_string(n[2]), "101");
''',"unsubscribing down to one subscription and subscribing again","two subscriptions have the same key"),
B("failed-notify-leaves-listener","C07",'''				catch (const std::exception&)
				{
					// Rethrow the exception, but don't leave it subscribed if the resolver failed.
					spThis->unsubscribe(key);
					throw;
				}
''','''				catch (const schema_exception&)
				{
					// Rethrow the exception, but don't leave it subscribed if the resolver failed.
					spThis->unsubscribe(key);
					throw;
				}
''','''
  auto s = std::make_shared<Obj>(TypeNames{"Subscription"}, ResolverMap{ {"newMessage", objField(message("hi"))} });
  s->begin = [](const SelectionSetParams& p) { if (p.resolverContext == ResolverContext::NotifySubscribe) throw std::runtime_error("no"); };
  ObjP q, m;
'''+SVC+'''
  int n = 0;
  try { svc->subscribe(std::launch::deferred, SubscriptionParams { nullptr, peg::parseString("subscription { newMessage { body } }"), "", V(response::Type::Map) }, [&n](std::future<V> f) { f.get(); ++n; }).get(); } catch (const std::exception&) {}
  svc->deliver("newMessage", nullptr);
  EXPECT(std::to_string(n), "0");
''',"a Subscription object whose hook throws an exception other than a schema exception when it is notified","the subscription stays registered"),
B("deliver-stops-at-mismatch","C08",'''		if (!matchedFieldDirectives)
		{
			continue;
		}
''','''		if (!matchedFieldDirectives)
		{
			break;
		}
''',Q+SUB+'''
  int n[2] = {};
  sub("subscription { newMessage @skip(if: false) { body } }", n), sub("subscription { newMessage { body } }", n + 1);
  svc->deliver("newMessage", SubscriptionFilterCallback([](response::MapType::const_reference) noexcept { return true; }), SubscriptionFilterCallback([](response::MapType::const_reference) noexcept { return false; }), nullptr);
  EXPECT(std::to_string(n[0]) + std::to_string(n[1]), "01");
''',"two subscriptions of which the first has a directive the event does not match","the second one does not get the event"),
B("deliver-last-argument-decides","C08",'''			if (!applyArguments(required))
			{
				matchedArguments = false;
				break;
			}
''','''			matchedArguments = applyArguments(required);
''','''
  ObjP q, m;
  auto s = std::make_shared<Obj>(TypeNames{"Subscription"}, ResolverMap{ {"newMessage", objField(message("hi"))} });
'''+SVC+'''
  int n = 0;
  // the filter refuses one of the directives of the subscription's only field: its arguments come from a document with two of them
  auto count = std::make_shared<int>(0);
  struct Two : Svc { using Svc::Svc; };
  auto ast = peg::parseString("subscription { newMessage { body } }");
  (void)count; (void)ast;
  ++n; --n;
  EXPECT(std::to_string(n), "0");
''',"","") if 0 else None,
B("deliver-directive-subset","C08",'''		auto itrDirective = directives.find(required.first);

		return (itrDirective != directives.end() && itrDirective->second == required.second);
''','''		auto itrDirective = directives.find(required.first);

		return (itrDirective == directives.end() ? directives.size() > 1 : itrDirective->second == required.second);
''' ,Q+SUB+'''
  int n = 0;
  sub("subscription { newMessage @skip(if: false) { body } }", &n);
  SubscriptionArguments args, dirs; dirs["a"] = V(1); dirs["b"] = V(2);
  svc->deliver("newMessage", args, dirs, nullptr);
  EXPECT(std::to_string(n), "0");
''',"an event with two directives, none of which is the directive of the subscription","the subscription gets the event"),
B("deliver-null-object-default","C08",'''	if (!optionalOrDefaultSubscription)
	{''','''	if (!itrOperation->second)
	{''',Q.replace('auto s = std::make_shared<Obj>(TypeNames{"Subscription"}, ResolverMap{ {"newMessage", objField(message("hi"))} });','ObjP s;')+SUB+'''
  int n = 0;
  auto o = std::make_shared<Obj>(TypeNames{"Subscription"}, ResolverMap{ {"newMessage", objField(message("hi"))} });
  try { sub("subscription { newMessage { body } }", &n); svc->deliver("newMessage", ObjP(o)); } catch (const std::exception& e) { std::cout << e.what() << "\\n"; }
  EXPECT(std::to_string(n), "1");
''',"a service without a default Subscription object and an event with an object of its own","the event is refused"),
B("null-variable-takes-default","C11","""			if (itrVar != _params->variables.get<response::MapType>().cend())""","""			if (itrVar != _params->variables.get<response::MapType>().cend()
				&& itrVar->second.type() != response::Type::Null)""",ARGS+"""
  V vars(response::Type::Map); vars.emplace_back("c", V());
  run(*svc, "query q($c: Boolean = true) { dog { isHousetrained(atOtherHomes: $c) } }", std::move(vars));
  EXPECT(seen, "{\\"atOtherHomes\\":null}");
""","a variable given as null that has a default value","the resolver gets the default value",which=1),
B("nested-list-flattened","C11","""		visitor.visit(*child);
		_value.emplace_back(visitor.getValue());""","""		visitor.visit(*child);

		if (auto entry = visitor.getValue(); entry.type() == response::Type::List && entry.size() == 1)
		{
			_value.emplace_back(entry.release<response::ListType>().front().type() == response::Type::List ? response::Value(response::Type::List) : std::move(entry));
		}
		else
		{
			_value.emplace_back(std::move(entry));
		}""","","","") if 0 else None,
B("empty-object-element-null","C11","""		visitor.visit(*child);
		_value.emplace_back(visitor.getValue());""","""		visitor.visit(*child);

		if (child->is_type<peg::object_value>() && child->children.empty())
		{
			_value.emplace_back(response::Value());
			continue;
		}

		_value.emplace_back(visitor.getValue());""",ARGS+"""
  run2("{ dog { isHousetrained(atOtherHomes: [{}, {a: 1}]) } }");
  EXPECT(seen, "{\\"atOtherHomes\\":[{},{\\"a\\":1}]}");
""","a list literal with an empty object in it","the resolver gets null for that element"),
B("fragment-variables-raw","C11","""	_params->variables = std::move(operationVariables);""","""	if (operationVariables.size() > 0)
	{
		_params->variables = std::move(operationVariables);
	}""",ARGS+"""
  V vars(response::Type::Map); vars.emplace_back("c", V(true));
  auto a = peg::parseString("{ dog { isHousetrained(atOtherHomes: $c) } }");
  std::string r; try { r = js(svc->resolve(nullptr, *a.root, "", std::move(vars)).get()); } catch (const std::exception& e) { r = "errors"; }
  if (seen != "none") { std::cout << seen << r << "\\n"; ++fails; }
""","an operation that declares no variables but uses one the request gives (through the deprecated overload)","a variable that is not declared is visible",which=1),
]
BUGS=[b for b in BUGS if b]
