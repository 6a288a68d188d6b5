GS = "src/GraphQLService.cpp"
GH = "include/graphqlservice/GraphQLService.h"
REFS = []
def R(id, *edits, file=GS, **kw):
    REFS.append(dict(id=id, edits=[e if len(e) == 3 else (file,) + e for e in edits], compile="src/GraphQLService.cpp", **kw))

DOC = '''				response::Value document { response::Type::Map };

				document.emplace_back(std::string { strData }, std::move(result.data));

				if (!result.errors.empty())
				{
					document.emplace_back(std::string { strErrors },
						buildErrorValues(std::move(result.errors)));
				}

				return document;
			},
			operationVisitor.getValue());
'''
R("doc-helper", (DOC, '''				return buildDocument(std::move(result));
			},
			operationVisitor.getValue());
'''), ('''schema_exception::schema_exception(std::list<schema_error>&& structuredErrors)
''', '''static response::Value buildDocument(ResolverResult&& result)
{
	response::Value document { response::Type::Map };

	document.emplace_back(std::string { strData }, std::move(result.data));

	if (!result.errors.empty())
	{
		document.emplace_back(std::string { strErrors }, buildErrorValues(std::move(result.errors)));
	}

	return document;
}

schema_exception::schema_exception(std::list<schema_error>&& structuredErrors)
'''), count=1)
REFS[-1]["edits"][0] = (GS, DOC, REFS[-1]["edits"][0][2]); REFS[-1]["multi"] = True
R("missing-helper", ('''		if (!operationDefinition.second)
		{
			std::ostringstream message;

			message << "Missing operation";

			if (!operationName.empty())
			{
				message << " name: " << operationName;
			}

			throw schema_exception { { message.str() } };
		}
		else if (operationDefinition.first == strSubscription)
		{
			auto position = operationDefinition.second->begin();
			std::ostringstream message;

			message << "Unexpected subscription";

			if (!operationName.empty())
			{
				message << " name: " << operationName;
			}

			throw schema_exception {
				{ schema_error { message.str(), { position.line, position.column } } }
			};
		}
''', '''		requireExecutable(operationDefinition.first, operationDefinition.second, operationName);
'''), ('''std::future<response::Value> Request::resolve(const std::shared_ptr<RequestState>& state,
	peg::ast& query,''', '''static void requireExecutable(std::string_view operationType, const peg::ast_node* definition, const std::string& operationName)
{
	const bool found = (definition != nullptr);

	if (found && operationType != strSubscription)
	{
		return;
	}

	std::ostringstream message;

	message << (found ? "Unexpected subscription" : "Missing operation");

	if (!operationName.empty())
	{
		message << " name: " << operationName;
	}

	if (!found)
	{
		throw schema_exception { { message.str() } };
	}

	auto position = definition->begin();

	throw schema_exception {
		{ schema_error { message.str(), { position.line, position.column } } }
	};
}

std::future<response::Value> Request::resolve(const std::shared_ptr<RequestState>& state,
	peg::ast& query,'''))
REFS[-1]["multi"] = True
R("resolve-order", ('''		FragmentDefinitionVisitor fragmentVisitor(variables);

		peg::for_each_child<peg::fragment_definition>(*query.root,
			[&fragmentVisitor](const peg::ast_node& child) {
				fragmentVisitor.visit(child);
			});

		auto fragments = fragmentVisitor.getFragments();
		auto operationDefinition = findOperationDefinition(query, operationName);

		if (!operationDefinition.second)
''', '''		const auto operationDefinition = findOperationDefinition(query, operationName);
		FragmentDefinitionVisitor fragmentVisitor(variables);

		peg::for_each_child<peg::fragment_definition>(*query.root,
			[&fragmentVisitor](const peg::ast_node& child) {
				fragmentVisitor.visit(child);
			});

		auto fragments = fragmentVisitor.getFragments();

		if (operationDefinition.second == nullptr)
'''))
R("resolve-context", ('''		const bool isMutation = (operationDefinition.first == strMutation);
		const auto resolverContext =
			isMutation ? ResolverContext::Mutation : ResolverContext::Query;
		// http://spec.graphql.org/June2018/#sec-Normal-and-Serial-Execution
		const auto operationLaunch = isMutation ? std::launch::deferred : launch;
''', '''		auto resolverContext = ResolverContext::Query;
		auto operationLaunch = launch;

		// http://spec.graphql.org/June2018/#sec-Normal-and-Serial-Execution
		if (operationDefinition.first == strMutation)
		{
			resolverContext = ResolverContext::Mutation;
			operationLaunch = std::launch::deferred;
		}
'''))
R("find-loop", ('''	peg::on_first_child_if<peg::operation_definition>(*query.root,
		[this, &operationName, &result](const peg::ast_node& operationDefinition) noexcept -> bool {
			std::string_view operationType = strQuery;
''', '''	const bool anyName = operationName.empty();

	peg::on_first_child_if<peg::operation_definition>(*query.root,
		[anyName, operationName, &result](const peg::ast_node& operationDefinition) noexcept -> bool {
			std::string_view operationType { strQuery };
'''), ('''			if (operationName.empty() || name == operationName)
			{
				result = { operationType, &operationDefinition };
				return true;
			}

			return false;
''', '''			const bool matches = anyName || name == operationName;

			if (matches)
			{
				result.first = operationType;
				result.second = &operationDefinition;
			}

			return matches;
'''))
R("find-forloop", ('''	peg::on_first_child_if<peg::operation_definition>(*query.root,
		[this, &operationName, &result](const peg::ast_node& operationDefinition) noexcept -> bool {
			std::string_view operationType = strQuery;

			peg::on_first_child<peg::operation_type>(operationDefinition,
				[&operationType](const peg::ast_node& child) {
					operationType = child.string_view();
				});

			std::string_view name;

			peg::on_first_child<peg::operation_name>(operationDefinition,
				[&name](const peg::ast_node& child) {
					name = child.string_view();
				});

			if (operationName.empty() || name == operationName)
			{
				result = { operationType, &operationDefinition };
				return true;
			}

			return false;
		});
''', '''	for (const auto& child : query.root->children)
	{
		if (!child->is_type<peg::operation_definition>())
		{
			continue;
		}

		const auto& operationDefinition = *child;
		std::string_view operationType = strQuery;

		peg::on_first_child<peg::operation_type>(operationDefinition,
			[&operationType](const peg::ast_node& type) {
				operationType = type.string_view();
			});

		std::string_view name;

		peg::on_first_child<peg::operation_name>(operationDefinition,
			[&name](const peg::ast_node& nameNode) {
				name = nameNode.string_view();
			});

		if (operationName.empty() || name == operationName)
		{
			result = { operationType, &operationDefinition };
			break;
		}
	}
'''))
R("validate-early", ('''	std::list<schema_error> errors;

	if (!query.validated)
	{
		_validation->visit(*query.root);
		errors = _validation->getStructuredErrors();
		query.validated = errors.empty();
	}

	return errors;
''', '''	if (query.validated)
	{
		return {};
	}

	_validation->visit(*query.root);

	auto errors = _validation->getStructuredErrors();

	query.validated = errors.empty();

	return errors;
'''))
R("subscribe-index", ('''	auto registration = subscriptionVisitor.getRegistration();
	auto key = _nextKey++;

	_listeners[registration->field].emplace(key);
	_subscriptions.emplace(key, std::move(registration));

	return key;
''', '''	const auto key = _nextKey;
	auto registration = subscriptionVisitor.getRegistration();
	auto& listeners = _listeners[registration->field];

	_subscriptions.emplace(key, std::move(registration));
	listeners.emplace(key);
	++_nextKey;

	return key;
'''))
R("unsubscribe-block", ('''	auto itrSubscription = _subscriptions.find(key);

	if (itrSubscription == _subscriptions.end())
	{
		return;
	}

	const auto listenerKey = std::string_view { itrSubscription->second->field };
	auto& listener = _listeners.at(listenerKey);

	listener.erase(key);
	if (listener.empty())
	{
		_listeners.erase(listenerKey);
	}

	_subscriptions.erase(itrSubscription);
''', '''	const auto itrSubscription = _subscriptions.find(key);

	if (itrSubscription != _subscriptions.end())
	{
		const std::string listenerKey { itrSubscription->second->field };
		auto& listener = _listeners.at(listenerKey);

		listener.erase(key);

		if (listener.empty())
		{
			_listeners.erase(listenerKey);
		}

		_subscriptions.erase(itrSubscription);
	}
	else
	{
		return;
	}
'''))
R("unsubscribe-ternary", ('''	if (_subscriptions.empty())
	{
		_nextKey = 0;
	}
	else
	{
		_nextKey = _subscriptions.rbegin()->first + 1;
	}
''', '''	_nextKey = _subscriptions.empty() ? 0 : _subscriptions.rbegin()->first + 1;
'''))
R("subscribe-helper", ('''				response::Value emptyFragmentDirectives(response::Type::Map);
				const SelectionSetParams selectionSetParams {
					ResolverContext::NotifySubscribe,
					registration->data->state,
					registration->data->directives,
					emptyFragmentDirectives,
					emptyFragmentDirectives,
					emptyFragmentDirectives,
					{},
					launch,
				};

				try
				{
					operation
						->resolve(selectionSetParams,
							registration->selection,
							registration->data->fragments,
							registration->data->variables)
						.get();
				}
''', '''				try
				{
					notify(*operation, *registration, ResolverContext::NotifySubscribe, launch);
				}
'''), ('''			response::Value emptyFragmentDirectives(response::Type::Map);
			const SelectionSetParams selectionSetParams {
				ResolverContext::NotifyUnsubscribe,
				registration->data->state,
				registration->data->directives,
				emptyFragmentDirectives,
				emptyFragmentDirectives,
				emptyFragmentDirectives,
				{},
				launch,
			};

			operation
				->resolve(selectionSetParams,
					registration->selection,
					registration->data->fragments,
					registration->data->variables)
				.get();
''', '''			notify(*operation, *registration, ResolverContext::NotifyUnsubscribe, launch);
'''), ('''SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCallback&& callback)
''', '''static void notify(const Object& operation, const SubscriptionData& registration,
	ResolverContext resolverContext, std::launch launch)
{
	response::Value emptyFragmentDirectives(response::Type::Map);
	const SelectionSetParams selectionSetParams {
		resolverContext,
		registration.data->state,
		registration.data->directives,
		emptyFragmentDirectives,
		emptyFragmentDirectives,
		emptyFragmentDirectives,
		{},
		launch,
	};

	operation
		.resolve(selectionSetParams,
			registration.selection,
			registration.data->fragments,
			registration.data->variables)
		.get();
}

SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCallback&& callback)
'''))
R("deliver-all-of", ('''		bool matchedArguments = true;

		// If the field in this subscription had arguments that did not match what was provided
		// in this event, don't deliver the event to this subscription
		for (const auto& required : subscriptionArguments)
		{
			if (!applyArguments(required))
			{
				matchedArguments = false;
				break;
			}
		}

		if (!matchedArguments)
		{
			continue;
		}
''', '''		// If the field in this subscription had arguments that did not match what was provided
		// in this event, don't deliver the event to this subscription
		if (!std::all_of(subscriptionArguments.begin(),
				subscriptionArguments.end(),
				[&applyArguments](const auto& required) {
					return applyArguments(required);
				}))
		{
			continue;
		}
'''))
R("deliver-helper", ('''void Request::deliver(std::launch launch, const SubscriptionName& name,
	const SubscriptionFilterCallback& applyArguments,
	const SubscriptionFilterCallback& applyDirectives,
	const std::shared_ptr<Object>& subscriptionObject) const
''', '''static bool matchesAll(const response::Value& entries, const SubscriptionFilterCallback& filter)
{
	for (const auto& required : entries)
	{
		if (!filter(required))
		{
			return false;
		}
	}

	return true;
}

void Request::deliver(std::launch launch, const SubscriptionName& name,
	const SubscriptionFilterCallback& applyArguments,
	const SubscriptionFilterCallback& applyDirectives,
	const std::shared_ptr<Object>& subscriptionObject) const
'''), ('''		const auto& subscriptionArguments = registration->arguments;
		bool matchedArguments = true;

		// If the field in this subscription had arguments that did not match what was provided
		// in this event, don't deliver the event to this subscription
		for (const auto& required : subscriptionArguments)
		{
			if (!applyArguments(required))
			{
				matchedArguments = false;
				break;
			}
		}

		if (!matchedArguments)
		{
			continue;
		}

		// If the field in this subscription had field directives that did not match what was
		// provided in this event, don't deliver the event to this subscription
		const auto& subscriptionFieldDirectives = registration->fieldDirectives;
		bool matchedFieldDirectives = true;

		for (const auto& required : subscriptionFieldDirectives)
		{
			if (!applyDirectives(required))
			{
				matchedFieldDirectives = false;
				break;
			}
		}

		if (!matchedFieldDirectives)
		{
			continue;
		}
''', '''
		if (!matchesAll(registration->arguments, applyArguments)
			|| !matchesAll(registration->fieldDirectives, applyDirectives))
		{
			continue;
		}
'''))
R("deliver-iter", ('''	for (const auto& key : itrListeners->second)
	{
		auto itrSubscription = _subscriptions.find(key);
		auto registration = itrSubscription->second;
''', '''	const auto& keys = itrListeners->second;

	for (auto itrKey = keys.begin(); itrKey != keys.end(); ++itrKey)
	{
		auto registration = _subscriptions.find(*itrKey)->second;
'''), ('''	for (auto& callback : callbacks)
	{
		callback.get();
	}
''', '''	std::for_each(callbacks.begin(), callbacks.end(), [](std::future<void>& callback) {
		callback.get();
	});
'''))
R("deliver-object", ('''	const auto& optionalOrDefaultSubscription =
		subscriptionObject ? subscriptionObject : itrOperation->second;
''', '''	auto optionalOrDefaultSubscription = itrOperation->second;

	if (subscriptionObject)
	{
		optionalOrDefaultSubscription = subscriptionObject;
	}
'''))
R("sub-field", ('''	_field = std::move(name);
	_arguments = std::move(arguments);
''', '''	_arguments = std::move(arguments);
	_field = std::string { name };
'''), ('''	_fieldDirectives = directiveVisitor.getDirectives();

	response::Value arguments(response::Type::Map);
''', '''	response::Value arguments(response::Type::Map);
'''), ('''			arguments.emplace_back(argument->children.front()->string(), visitor.getValue());
		}
	});

	_arguments''' if False else '''	_field = std::move(name);
''', '''	_field = std::move(name);
''') if False else (GS, '''bool SubscriptionDefinitionVisitor::matchesType(std::string_view typeName) const
{
''', '''bool SubscriptionDefinitionVisitor::matchesType(std::string_view typeName) const
{
	if (!_subscriptionObject)
	{
		return true;
	}

'''))
REFS[-1]["edits"] = [(GS, '''	_fieldDirectives = directiveVisitor.getDirectives();

	response::Value arguments(response::Type::Map);
''', '''	response::Value arguments(response::Type::Map);
'''), (GS, '''	_field = std::move(name);
	_arguments = std::move(arguments);
''', '''	_arguments = std::move(arguments);
	_fieldDirectives = directiveVisitor.getDirectives();
	_field = std::string { name };
''')]
R("sub-registration", ('''	_result =
		std::make_shared<SubscriptionData>(std::make_shared<OperationData>(std::move(_params.state),
											   std::move(_params.variables),
											   std::move(directives),
											   std::move(_fragments)),
			std::move(_field),
''', '''	auto data = std::make_shared<OperationData>(std::move(_params.state),
		std::move(_params.variables),
		std::move(directives),
		std::move(_fragments));

	_result = std::make_shared<SubscriptionData>(std::move(data),
			std::move(_field),
'''))
R("convert-leaf", ('''	if (value.type() != response::Type::Int)
	{
		throw schema_exception { { "not an integer" } };
	}

	return value.get<response::IntType>();
''', '''	if (value.type() == response::Type::Int)
	{
		return value.get<response::IntType>();
	}

	throw schema_exception { { "not an integer" } };
'''))
R("object-convert", ('''		auto wrappedResult = resultFuture.get();

		if (!wrappedResult)
		{
			return ResolverResult {};
		}

		return wrappedResult
			->resolve(paramsFuture,
				*paramsFuture.selection,
				paramsFuture.fragments,
				paramsFuture.variables)
			.get();
	};
''', '''		const std::shared_ptr<Object> object = resultFuture.get();
		ResolverResult document;

		if (object)
		{
			auto future = object->resolve(paramsFuture,
				*paramsFuture.selection,
				paramsFuture.fragments,
				paramsFuture.variables);

			document = future.get();
		}

		return document;
	};
'''))
R("sub-fields-helper", ('''		auto position = params.selection->begin();
		std::ostringstream error;

		error << "Field may not have sub-fields name: " << params.fieldName;

		throw schema_exception { { schema_error { error.str(),
			{ position.line, position.column },
			buildErrorPath(params.errorPath) } } };
''', '''		throwFieldError(*params.selection, "Field may not have sub-fields name: ", params);
'''), ('''		auto position = params.field.begin();
		std::ostringstream error;

		error << "Field must have sub-fields name: " << params.fieldName;

		throw schema_exception { { schema_error { error.str(),
			{ position.line, position.column },
			buildErrorPath(params.errorPath) } } };
''', '''		throwFieldError(params.field, "Field must have sub-fields name: ", params);
'''), ('''void blockSubFields(const ResolverParams& params)
''', '''[[noreturn]] static void throwFieldError(
	const peg::ast_node& node, std::string_view message, const ResolverParams& params)
{
	auto position = node.begin();
	std::ostringstream error;

	error << message << params.fieldName;

	throw schema_exception { { schema_error { error.str(),
		{ position.line, position.column },
		buildErrorPath(params.errorPath) } } };
}

void blockSubFields(const ResolverParams& params)
'''))
R("list-index", ('''					for (auto& entry : wrappedResult)
					{
						children.push_back(ModifiedResult::convert<Other...>(std::move(entry),
							ResolverParams(wrappedParams)));
						++std::get<size_t>(wrappedParams.errorPath->segment);
					}
''', '''					auto& index = std::get<size_t>(wrappedParams.errorPath->segment);

					for (auto itr = wrappedResult.begin(); itr != wrappedResult.end(); ++itr)
					{
						children.push_back(ModifiedResult::convert<Other...>(std::move(*itr),
							ResolverParams(wrappedParams)));
						++index;
					}
'''), file=GH)
R("leaf-build", ('''		auto buildResult = [](auto&& resultFuture,
							   ResolverParams&& paramsFuture,
							   ResolverCallback&& resolverFuture) noexcept {
			ResolverResult document;

			try
			{
				document.data = resolverFuture(resultFuture.get(), paramsFuture);
			}
''', '''		auto buildResult = [](auto&& resultFuture,
							   ResolverParams&& paramsFuture,
							   ResolverCallback&& resolverFuture) noexcept {
			ResolverResult document {};

			try
			{
				auto value = resultFuture.get();

				document.data = resolverFuture(std::move(value), paramsFuture);
			}
'''), file=GH)
R("leaf-split", ('''			catch (schema_exception& scx)
			{
				auto errors = scx.getStructuredErrors();

				if (!errors.empty())
				{
					document.errors.splice(document.errors.end(), errors);
				}
			}
			catch (const std::exception& ex)
			{
				std::ostringstream message;

				message << "Field name: " << paramsFuture.fieldName
						<< " unknown error: " << ex.what();

				document.errors.emplace_back(schema_error { message.str(),
					paramsFuture.getLocation(),
					buildErrorPath(paramsFuture.errorPath) });
			}

			return document;
''', '''			catch (schema_exception& scx)
			{
				for (auto& error : scx.getStructuredErrors())
				{
					document.errors.push_back(std::move(error));
				}
			}
			catch (const std::exception& ex)
			{
				const auto location = paramsFuture.getLocation();
				auto path = buildErrorPath(paramsFuture.errorPath);
				std::string message = "Field name: " + paramsFuture.fieldName;

				message += " unknown error: ";
				message += ex.what();
				document.errors.push_back({ std::move(message), location, std::move(path) });
			}

			return document;
'''), file=GH)
