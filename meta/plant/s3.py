import sys; sys.path.insert(0,'/tmp/pb')
from ex import ex,SVC
F="src/GraphQLService.cpp"; H="include/graphqlservice/GraphQLService.h"
def B(id,prop,old,new,demo,needs,breaks,file=F,**k): return dict(id=id,prop=prop,file=file,old=old,new=new,demo=ex(demo),needs=needs,breaks=breaks,**k)
Q='''  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", objField(dog("rex"))}, {"human", objField(human("bob"))} });
  auto m = std::make_shared<Obj>(TypeNames{"Mutation"}, ResolverMap{ {"mutateDog", objField(dog("mut"))} });
  auto s = std::make_shared<Obj>(TypeNames{"Subscription"}, ResolverMap{ {"newMessage", objField(message("hi"))} });
'''+SVC
BUGS=[
B("validated-before-verdict","C01","		_validation->visit(*query.root);\n","		query.validated = !query.root->children.empty();\n		_validation->visit(*query.root);\n",'',"","") if 0 else
B("validated-anonymous","C01","		query.validated = errors.empty();","		query.validated = errors.empty() || query.root->children.size() > 2;",Q+'''
  auto a = peg::parseString("query a { dog { name } } query b { dog { nickname } } query c { nothere }");
  std::string r;
  for (int i = 0; i < 2; ++i) { try { r = js(svc->resolve(nullptr, a, "a", V(response::Type::Map)).get()); } catch (const std::exception& e) { r = std::string("THROWN ") + e.what(); }
    if (r.find("errors") == std::string::npos) { std::cout << r << "\\n"; ++fails; } }
''',"the same syntax tree with three or more definitions, one of them invalid, is resolved a second time","a document which was refused counts as validated afterwards, so it is executed the second time"),
B("subscribe-trusts-named","C01","	auto errors = validate(params.query);\n\n	if (!errors.empty())\n	{","	auto errors = validate(params.query);\n\n	params.query.validated = true;\n	if (!errors.empty() && params.operationName.empty())\n	{",Q+'''
  auto a = peg::parseString("subscription x { newMessage { body nothere } }");
  std::string r = "subscribed";
  try { svc->subscribe(SubscriptionParams { nullptr, peg::ast(a), "x", V(response::Type::Map) }, [](std::future<V>){}); } catch (const schema_exception&) { r = "refused"; }
  EXPECT(r, "refused");
''',"a subscription with errors requested by its operation name","it is registered although validation found errors"),
B("include-ignored-on-conditional-fragment","C03","	const peg::ast_node* typeCondition = nullptr;\n\n	peg::on_first_child<peg::type_condition>(inlineFragment,\n		[&typeCondition](const peg::ast_node& child) {\n			typeCondition = &child;\n		});\n\n	if (typeCondition == nullptr\n		|| matchesType","	const peg::ast_node* typeCondition = nullptr;\n\n	peg::on_first_child<peg::type_condition>(inlineFragment,\n		[&typeCondition](const peg::ast_node& child) {\n			typeCondition = &child;\n		});\n\n	if (directiveVisitor.shouldSkip() && typeCondition == nullptr)\n	{\n		return;\n	}\n\n	if (typeCondition == nullptr\n		|| matchesType",Q,"x","x") if 0 else
dict(id="subscription-skip-typed-inline",prop="C03",edits=[(F,'''	if (directiveVisitor.shouldSkip())
	{
		return;
	}

	const peg::ast_node* typeCondition = nullptr;

	peg::on_first_child<peg::type_condition>(inlineFragment,
		[&typeCondition](const peg::ast_node& child) {
			typeCondition = &child;
		});

	if (typeCondition == nullptr
		|| matchesType(''','''	const peg::ast_node* typeCondition = nullptr;

	peg::on_first_child<peg::type_condition>(inlineFragment,
		[&typeCondition](const peg::ast_node& child) {
			typeCondition = &child;
		});

	if ((typeCondition == nullptr && !directiveVisitor.shouldSkip())
		|| matchesType(''')],demo=ex(Q),needs="",breaks="") if 0 else
B("skip-null-variable","C03","	auto itr = _directives.find(strSkip);","	auto itr = _directives.size() > 2 ? _directives.end() : _directives.find(strSkip);",Q,"","") if 0 else
B("directive-args-last-only","C03","	if (typeCondition == nullptr\n		|| _typeNames.find(typeCondition->children.front()->string_view()) != _typeNames.end())\n	{\n		peg::on_first_child<peg::selection_set>(inlineFragment,\n			[this, &directiveVisitor](const peg::ast_node& child) {\n","	if (typeCondition == nullptr\n		|| _typeNames.find(typeCondition->children.front()->string_view()) != _typeNames.end())\n	{\n		peg::on_first_child<peg::selection_set>(inlineFragment,\n			[this, &directiveVisitor](const peg::ast_node& child) {\n",Q,"","") if 0 else
dict(id="inline-fragment-spread-skip",prop="C03",edits=[(F,'''	bool skip = (_typeNames.find(itr->second.getType()) == _typeNames.end());
	DirectiveVisitor directiveVisitor(_variables);

	if (!skip)
	{''','''	bool skip = (_typeNames.find(itr->second.getType()) == _typeNames.end());
	DirectiveVisitor directiveVisitor(_variables);

	if (!skip && (_fragmentDirectives.size() < 3 || itr->second.getSelection().children.size() == 1))
	{''')],demo=ex(Q+'''
  EXPECT(run(*svc, "{ dog { ... on Pet { ... on Dog { ...f @skip(if: true) } } nickname } } fragment f on Dog { name nickname }"), "{\\"data\\":{\\"dog\\":{\\"nickname\\":\\"nick-rex\\"}}}");
'''),needs="a skipped fragment spread with two fields nested in two inline fragments",breaks="its directives are not read, so it is executed") if 0 else
dict(id="spread-merges-before-skip",prop="C03",edits=[(F,'''		skip = directiveVisitor.shouldSkip();
	}

	if (skip)
	{
		return;
	}

	auto fragmentSpreadDirectives''','''		skip = directiveVisitor.shouldSkip();
	}

	if (skip && (_fragmentDirectives.size() == 1 || _names.find(name) == _names.end()))
	{
		return;
	}

	auto fragmentSpreadDirectives''')],demo=ex(Q+'''
  EXPECT(run(*svc, "{ dog { ... on Pet { name ...name @skip(if: true) } } } fragment name on Dog { nickname }"), "{\\"data\\":{\\"dog\\":{\\"name\\":\\"rex\\"}}}");
'''),needs="a skipped spread, inside another fragment, of a fragment which has the name of a field that is selected too",breaks="the fragment is executed although it is skipped"),
dict(id="subscription-skip-typed-inline",prop="C03",edits=[(F,'''	if (directiveVisitor.shouldSkip())
	{
		return;
	}

	_fieldDirectives = directiveVisitor.getDirectives();
''','''	_fieldDirectives = directiveVisitor.getDirectives();
''')],demo=ex(Q),needs="",breaks="") if 0 else
dict(id="list-error-shifts-index",prop="C06",edits=[(H,'''							wrappedParams.getLocation(),
							buildErrorPath(wrappedParams.errorPath) });
						document.data.emplace_back({});
					}

					++std''','''							wrappedParams.getLocation(),
							buildErrorPath(wrappedParams.errorPath) });
						document.data.emplace_back({});
						continue;
					}

					++std''')],demo=ex('''
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"booleanList", [](ResolverParams&& p) {
    std::vector<ObjP> v(3);
    for (auto& o : v) { o = human("x"); std::static_pointer_cast<Obj>(o)->begin = [](const SelectionSetParams&) { throw std::runtime_error("boom"); }; }
    return ModifiedResult<Object>::convert<TypeModifier::List>(FieldResult<std::vector<ObjP>>(std::move(v)), std::move(p)); }} });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"human", [](ResolverParams&& p) {
    std::vector<ObjP> v(3);
    for (auto& o : v) { o = human("x"); std::static_pointer_cast<Obj>(o)->begin = [](const SelectionSetParams&) { throw std::runtime_error("boom"); }; }
    auto f = std::async(std::launch::deferred, [v = std::move(v)]() { return v; });
    return ModifiedResult<Object>::convert<TypeModifier::List, TypeModifier::Nullable>(FieldResult<std::vector<ObjP>>(std::move(f)), std::move(p)); }} })} , {"mutation", nullptr}, {"subscription", nullptr} });
  auto r = run(*svc, "{ human { name } }");
  for (auto w : { "[\\"human\\",0]", "[\\"human\\",1]", "[\\"human\\",2]" }) if (r.find(w) == std::string::npos) { std::cout << r << "\\n"; ++fails; }
'''),needs="a list of which more than one element fails with an exception that is not a schema exception",breaks="the errors of all but the first failed element have the index of the first in their path"),
dict(id="two-errors-one-location",prop="C06",edits=[(F,'''			if (message.location.line == 0)
			{
				message.location = { position.line, position.column };
			}

			if (message.path.empty())
			{
				message.path = buildErrorPath(selectionSetParams.errorPath);
			}
''','''			if (message.location.line == 0)
			{
				message.location = { position.line, position.column };

				if (message.path.empty())
				{
					message.path = buildErrorPath(selectionSetParams.errorPath);
				}
			}
''')],demo=ex('''
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", [](ResolverParams&& p) -> std::future<ResolverResult> { throw schema_exception { { schema_error { "located", p.getLocation() } } }; }} });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", nullptr}, {"subscription", nullptr} });
  auto r = run(*svc, "{ dog { name } }");
  if (r.find("\\"path\\":[\\"dog\\"]") == std::string::npos) { std::cout << r << "\\n"; ++fails; }
'''),needs="a resolver which throws an error with a location but without a path",breaks="the error has no path"),
dict(id="path-first-index-dropped",prop="C06",edits=[(F,'''		else if (std::holds_alternative<size_t>(segment))
		{
			errorPath.emplace_back(''','''		else if (std::get<size_t>(segment) || !errorPath.size() || errorPath[errorPath.size() - 1].type() == response::Type::String)
		{
			errorPath.emplace_back(''')],demo=ex('''
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", [](ResolverParams&& p) -> std::future<ResolverResult> { throw schema_exception { { schema_error { "e", {}, { path_segment { std::string_view("dog") }, path_segment { size_t(2) }, path_segment { size_t(0) } } } } }; }} });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", nullptr}, {"subscription", nullptr} });
  auto r = run(*svc, "{ dog { name } }");
  if (r.find("\\"path\\":[\\"dog\\",2,0]") == std::string::npos) { std::cout << r << "\\n"; ++fails; }
'''),needs="an error in the first element of a list which is itself an element of a list",breaks="the index 0 is missing in the path of the error"),
dict(id="fragment-directives-leak",prop="C05",edits=[(F,'''	for (const auto& selection : itr->second.getSelection().children)
	{
		visit(*selection);
	}

	_fragmentDirectives.pop_back();''','''	for (const auto& selection : itr->second.getSelection().children)
	{
		visit(*selection);
	}

	if (_fragmentDirectives.size() > 2)
	{
		_fragmentDirectives.erase(std::next(_fragmentDirectives.begin()));
	}
	else
	{
		_fragmentDirectives.pop_back();
	}''')],demo=ex('''
  std::string seen;
  auto d = std::make_shared<Obj>(TypeNames{"Dog"}, ResolverMap{ {"name", strField("n")}, {"nickname", [&seen](ResolverParams&& p) {
    seen = js(V(p.fragmentSpreadDirectives)); return StringResult::convert(FieldResult<std::string>(std::string("x")), std::move(p)); }} });
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", objField(d)} });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", nullptr}, {"subscription", nullptr} });
  run(*svc, "{ dog { ...a } } fragment a on Dog { ...b @include(if: true) nickname } fragment b on Dog { name }");
  EXPECT(seen, "{}");
'''),needs="a field behind a nested fragment spread with a directive",breaks="the resolver of the field sees the directives of the nested spread it is not in"),
dict(id="mutation-nested-launch",prop="C05",edits=[(F,'''		const auto operationLaunch = isMutation ? std::launch::deferred : launch;

		OperationDefinitionVisitor operationVisitor(resolverContext,
			operationLaunch,''','''		const auto operationLaunch = isMutation && operationName.empty() ? std::launch::deferred : launch;

		OperationDefinitionVisitor operationVisitor(resolverContext,
			operationLaunch,''')],demo=ex('''
  std::launch seen = std::launch::deferred;
  auto m = std::make_shared<Obj>(TypeNames{"Mutation"}, ResolverMap{ {"mutateDog", [&seen](ResolverParams&& p) { seen = p.launch; return ObjectResult::convert(FieldResult<ObjP>(dog("x")), std::move(p)); }} });
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{});
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", m}, {"subscription", nullptr} });
  run(*svc, "mutation m { mutateDog(id: \\"1\\") { name } }", V(response::Type::Map), "m", std::launch::async);
  if (seen != std::launch::deferred) { std::cout << "mutation not deferred\\n"; ++fails; }
'''),needs="a mutation selected by its name and resolved with std::launch::async",breaks="the fields of the mutation run in parallel"),
B("find-prefix-name","C05","			if (operationName.empty() || name == operationName)\n			{\n				result = { operationType, &operationDefinition };","			if (operationName.empty() || name == operationName || (!result.second && operationName.size() > 1 && name == operationName.substr(1)))\n			{\n				result = { operationType, &operationDefinition };",Q+'''
  auto r = run(*svc, "query a { dog { name } } query ba { human { name } }", V(response::Type::Map), "ba");
  EXPECT(r, "{\\"data\\":{\\"human\\":{\\"name\\":\\"bob\\"}}}");
''',"two operations of which the first has the name of the second without its first character","the wrong operation is executed"),
B("second-failure-dropped","C04",'''					document.errors.push_back({ message.str() });
					document.data.emplace_back(std::string { name }, {});
''','''					if (document.data.emplace_back(std::string { name }, {}) && document.errors.empty())
					{
						document.errors.push_back({ message.str() });
					}
''','''
  auto bad = [](ResolverParams&&) { return std::async(std::launch::deferred, []() -> ResolverResult { throw std::runtime_error("boom"); }); };
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", bad}, {"human", bad} });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", nullptr}, {"subscription", nullptr} });
  auto r = run(*svc, "{ dog { name } human { name } }");
  if (r.find("name: human") == std::string::npos) { std::cout << r << "\\n"; ++fails; }
''',"two fields of the same object whose futures fail with exceptions that are no schema exceptions","the second one is null without an error"),
B("leaf-catches-schema-only","C04",'''	catch (const std::exception& ex)
	{
		std::promise<ResolverResult> promise;
		auto position = field.begin();
		std::ostringstream message;
''','''	catch (const std::runtime_error& ex)
	{
		std::promise<ResolverResult> promise;
		auto position = field.begin();
		std::ostringstream message;
''','''
  auto q = std::make_shared<Obj>(TypeNames{"Query"}, ResolverMap{ {"dog", [](ResolverParams&&) -> std::future<ResolverResult> { throw std::logic_error("boom"); }}, {"human", objField(human("bob"))} });
  auto svc = std::make_shared<Svc>(TypeMap{ {"query", q}, {"mutation", nullptr}, {"subscription", nullptr} });
  auto r = run(*svc, "{ dog { name } human { name } }");
  if (r.find("bob") == std::string::npos) { std::cout << r << "\\n"; ++fails; }
''',"a resolver which throws an exception that is neither a schema exception nor a runtime error","the whole operation fails instead of the field"),
B("null-object-skips-siblings","C04","		if (!document.data.emplace_back(std::string { name }, std::move(value.data)))","		if (!document.data.emplace_back(std::string { name }, std::move(value.data)))","","","") if 0 else
dict(id="abstract-first-only",prop="C04",edits=[(F,"	bool skip = (_typeNames.find(itr->second.getType()) == _typeNames.end());","	bool skip = (_typeNames.find(itr->second.getType()) == _typeNames.end())\n		&& (_fragmentDirectives.size() == 1 || itr->second.getSelection().children.size() == 1);")],demo=ex(Q+'''
  EXPECT(run(*svc, "{ dog { ... on Pet { name ...c } } } fragment c on Cat { nickname doesKnowCommand }"), "{\\"data\\":{\\"dog\\":{\\"name\\":\\"rex\\"}}}");
'''),needs="a fragment with several fields on another type, spread inside another fragment",breaks="it is applied to an object of a different type"),
]
BUGS=[b for b in BUGS if b]
