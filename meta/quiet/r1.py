GS = "src/GraphQLService.cpp"
GH = "include/graphqlservice/GraphQLService.h"
REFS = []
def R(id, *edits, file=GS, **kw):
    REFS.append(dict(id=id, edits=[(file, a, b) if len(e) == 2 else e for e in edits for a, b in [e[-2:]]], compile="src/GraphQLService.cpp", **kw))

R("path-getif", ('''		if (std::holds_alternative<std::string_view>(segment))
		{
			errorPath.emplace_back(
				response::Value { std::string { std::get<std::string_view>(segment) } });
		}
		else if (std::holds_alternative<size_t>(segment))
		{
			errorPath.emplace_back(
				response::Value(static_cast<response::IntType>(std::get<size_t>(segment))));
		}
''', '''		if (const auto* index = std::get_if<size_t>(&segment))
		{
			errorPath.emplace_back(response::Value(static_cast<response::IntType>(*index)));
		}
		else
		{
			const auto& name = std::get<std::string_view>(segment);

			errorPath.emplace_back(response::Value { std::string { name } });
		}
'''))
R("path-loop", ('''		result.reserve(segments.size());
		std::transform(segments.cbegin(),
			segments.cend(),
			std::back_inserter(result),
			[](const auto& segment) noexcept {
				return segment.get();
			});
''', '''		result.reserve(segments.size());

		for (const auto& segment : segments)
		{
			result.push_back(segment.get());
		}
'''))
R("path-reverse", ('''		std::list<std::reference_wrapper<const path_segment>> segments;

		for (auto segment = std::make_optional(std::cref(*path)); segment;
			 segment = segment->get().parent)
		{
			segments.push_front(std::cref(segment->get().segment));
		}

		result.reserve(segments.size());
		std::transform(segments.cbegin(),
			segments.cend(),
			std::back_inserter(result),
			[](const auto& segment) noexcept {
				return segment.get();
			});
''', '''		auto segment = std::make_optional(std::cref(*path));

		while (segment)
		{
			result.push_back(segment->get().segment);
			segment = segment->get().parent;
		}

		std::reverse(result.begin(), result.end());
'''))
R("errors-helper", ('''response::Value buildErrorValues(std::list<schema_error>&& structuredErrors)
{
	response::Value errors(response::Type::List);

	errors.reserve(structuredErrors.size());

	for (auto& error : structuredErrors)
	{
		response::Value entry(response::Type::Map);

		entry.reserve(3);
		addErrorMessage(std::move(error.message), entry);
		addErrorLocation(error.location, entry);
		addErrorPath(error.path, entry);

		errors.emplace_back(std::move(entry));
	}
''', '''static response::Value buildErrorValue(schema_error& error)
{
	response::Value entry(response::Type::Map);

	entry.reserve(3);
	addErrorMessage(std::move(error.message), entry);
	addErrorLocation(error.location, entry);
	addErrorPath(error.path, entry);

	return entry;
}

response::Value buildErrorValues(std::list<schema_error>&& structuredErrors)
{
	response::Value errors(response::Type::List);

	errors.reserve(structuredErrors.size());

	for (auto& error : structuredErrors)
	{
		errors.emplace_back(buildErrorValue(error));
	}
'''))
R("errors-iter", ('''	for (auto& error : structuredErrors)
	{
		response::Value entry(response::Type::Map);
''', '''	for (auto itr = structuredErrors.begin(); itr != structuredErrors.end(); ++itr)
	{
		auto& error = *itr;
		response::Value entry(response::Type::Map);
'''))
R("location-positive", ('''	response::Value errorLocation(response::Type::Map);

	errorLocation.reserve(2);
	errorLocation.emplace_back(std::string { strLine },
		response::Value(static_cast<response::IntType>(location.line)));
	errorLocation.emplace_back(std::string { strColumn },
		response::Value(static_cast<response::IntType>(location.column)));

	response::Value errorLocations(response::Type::List);

	errorLocations.reserve(1);
''', '''	const auto line = static_cast<response::IntType>(location.line);
	const auto column = static_cast<response::IntType>(location.column);
	response::Value errorLocation(response::Type::Map);
	response::Value errorLocations(response::Type::List);

	errorLocation.emplace_back(std::string { strLine }, response::Value(line));
	errorLocation.emplace_back(std::string { strColumn }, response::Value(column));

'''))
R("variable-positive", ('''	if (itr == _variables.get<response::MapType>().cend())
	{
		auto position = variable.begin();
		std::ostringstream error;

		error << "Unknown variable name: " << name;

		throw schema_exception {
			{ schema_error { error.str(), { position.line, position.column } } }
		};
	}

	_value = response::Value(itr->second);
''', '''	if (itr != _variables.end())
	{
		_value = response::Value(itr->second);
		return;
	}

	const auto position = variable.begin();

	throw schema_exception { { schema_error {
		"Unknown variable name: " + std::string { name },
		{ position.line, position.column } } } };
'''))
R("list-fresh", ('''	_value = response::Value(response::Type::List);
	_value.reserve(listValue.children.size());

	ValueVisitor visitor(_variables);

	for (const auto& child : listValue.children)
	{
		visitor.visit(*child);
		_value.emplace_back(visitor.getValue());
	}
''', '''	response::Value list(response::Type::List);

	list.reserve(listValue.children.size());

	for (const auto& child : listValue.children)
	{
		ValueVisitor visitor(_variables);

		visitor.visit(*child);
		list.emplace_back(visitor.getValue());
	}

	_value = std::move(list);
'''))
R("object-local", ('''	for (const auto& field : objectValue.children)
	{
		visitor.visit(*field->children.back());
		_value.emplace_back(field->children.front()->string(), visitor.getValue());
	}
''', '''	for (const auto& field : objectValue.children)
	{
		auto fieldName = field->children.front()->string();
		const auto& fieldValue = *field->children.back();

		visitor.visit(fieldValue);
		_value.emplace_back(std::move(fieldName), visitor.getValue());
	}
'''))
R("value-early", ('''	if (value.is_type<peg::variable_value>())
	{
		visitVariable(value);
	}
	else if (value.is_type<peg::integer_value>())
	{
		visitIntValue(value);
	}
	else if (value.is_type<peg::float_value>())
	{
		visitFloatValue(value);
	}
	else if (value.is_type<peg::string_value>())
''', '''	if (value.is_type<peg::float_value>())
	{
		visitFloatValue(value);
	}
	else if (value.is_type<peg::integer_value>())
	{
		visitIntValue(value);
	}
	else if (value.is_type<peg::variable_value>())
	{
		return visitVariable(value);
	}
	else if (value.is_type<peg::string_value>())
'''))
R("scalars-inline", ('''	_value = response::Value(std::atoi(intValue.string().c_str()));
''', '''	const auto digits = intValue.string();

	_value = response::Value(static_cast<response::IntType>(std::strtol(digits.c_str(), nullptr, 10)));
'''), ('''	_value = response::Value(response::Type::EnumValue);
	_value.set<response::StringType>(enumValue.string());
''', '''	response::Value result(response::Type::EnumValue);

	result.set<response::StringType>(enumValue.string());
	_value = std::move(result);
'''))
R("args-helper", ('''// DirectiveVisitor visits the AST and builds a 2-level map''', '''// Build a map of the argument name/value pairs.
static response::Value readArguments(const peg::ast_node& parent, const response::Value& variables)
{
	response::Value result(response::Type::Map);

	peg::on_first_child<peg::arguments>(parent,
		[&variables, &result](const peg::ast_node& child) {
			ValueVisitor visitor(variables);

			for (auto& argument : child.children)
			{
				visitor.visit(*argument->children.back());

				result.emplace_back(argument->children.front()->string(), visitor.getValue());
			}
		});

	return result;
}

// DirectiveVisitor visits the AST and builds a 2-level map'''),
('''		response::Value directiveArguments(response::Type::Map);

		peg::on_first_child<peg::arguments>(*directive,
			[this, &directiveArguments](const peg::ast_node& child) {
				ValueVisitor visitor(_variables);

				for (auto& argument : child.children)
				{
					visitor.visit(*argument->children.back());

					directiveArguments.emplace_back(argument->children.front()->string(),
						visitor.getValue());
				}
			});

		result.emplace_back(std::move(directiveName), std::move(directiveArguments));
''', '''		result.emplace_back(std::move(directiveName), readArguments(*directive, _variables));
'''), ('''	response::Value arguments(response::Type::Map);

	peg::on_first_child<peg::arguments>(field, [this, &arguments](const peg::ast_node& child) {
		ValueVisitor visitor(_variables);

		for (auto& argument : child.children)
		{
			visitor.visit(*argument->children.back());

			arguments.emplace_back(argument->children.front()->string(), visitor.getValue());
		}
	});

''', '''	response::Value arguments = readArguments(field, _variables);
'''), ('''	response::Value arguments(response::Type::Map);

	peg::on_first_child<peg::arguments>(field, [this, &arguments](const peg::ast_node& child) {
		ValueVisitor visitor(_params.variables);

		for (auto& argument : child.children)
		{
			visitor.visit(*argument->children.back());

			arguments.emplace_back(argument->children.front()->string(), visitor.getValue());
		}
	});

	_field = std::move(name);
	_arguments = std::move(arguments);
''', '''	_field = std::move(name);
	_arguments = readArguments(field, _params.variables);
'''))
R("skip-helper", ('''		bool argumentTrue = false;
		bool argumentFalse = false;

		for (auto& argument : arguments)
		{
			if (argumentTrue || argumentFalse || argument.second.type() != response::Type::Boolean
				|| argument.first != "if")
			{
				std::ostringstream error;

				error << "Invalid argument to directive: " << entry.second
					  << " name: " << argument.first;

				throw schema_exception { { error.str() } };
			}

			argumentTrue = argument.second.get<response::BooleanType>();
			argumentFalse = !argumentTrue;
		}

		if (argumentTrue || argumentFalse)
		{
			// Either directive is enough to skip the selection, so keep looking otherwise.
			if (argumentTrue == skip)
			{
				return true;
			}
		}
		else
		{
''', '''		std::optional<bool> condition;

		for (auto& argument : arguments)
		{
			if (condition || argument.first != "if"
				|| argument.second.type() != response::Type::Boolean)
			{
				std::ostringstream error;

				error << "Invalid argument to directive: " << entry.second
					  << " name: " << argument.first;

				throw schema_exception { { error.str() } };
			}

			condition = argument.second.get<response::BooleanType>();
		}

		if (condition)
		{
			// Either directive is enough to skip the selection, so keep looking otherwise.
			if (*condition == skip)
			{
				return true;
			}
		}
		else
		{
'''))
R("skip-unrolled", ('''bool DirectiveVisitor::shouldSkip() const
{
	static const std::array<std::pair<bool, std::string>, 2> skippedNames = {
		std::make_pair<bool, std::string>(true, "skip"),
		std::make_pair<bool, std::string>(false, "include"),
	};

	for (const auto& entry : skippedNames)
	{
		const bool skip = entry.first;
		auto itrDirective = _directives.find(entry.second);

		if (itrDirective == _directives.end())
		{
			continue;
		}

		auto& arguments = itrDirective->second;

		if (arguments.type() != response::Type::Map)
		{
			std::ostringstream error;

			error << "Invalid arguments to directive: " << entry.second;

			throw schema_exception { { error.str() } };
		}

		bool argumentTrue = false;
		bool argumentFalse = false;

		for (auto& argument : arguments)
		{
			if (argumentTrue || argumentFalse || argument.second.type() != response::Type::Boolean
				|| argument.first != "if")
			{
				std::ostringstream error;

				error << "Invalid argument to directive: " << entry.second
					  << " name: " << argument.first;

				throw schema_exception { { error.str() } };
			}

			argumentTrue = argument.second.get<response::BooleanType>();
			argumentFalse = !argumentTrue;
		}

		if (argumentTrue || argumentFalse)
		{
			// Either directive is enough to skip the selection, so keep looking otherwise.
			if (argumentTrue == skip)
			{
				return true;
			}
		}
		else
		{
			std::ostringstream error;

			error << "Missing argument directive: " << entry.second << " name: if";

			throw schema_exception { { error.str() } };
		}
	}

	return false;
}
''', '''static std::optional<bool> directiveCondition(const response::Value& directives, const std::string& name)
{
	auto itrDirective = directives.find(name);

	if (itrDirective == directives.end())
	{
		return std::nullopt;
	}

	auto& arguments = itrDirective->second;

	if (arguments.type() != response::Type::Map)
	{
		std::ostringstream error;

		error << "Invalid arguments to directive: " << name;

		throw schema_exception { { error.str() } };
	}

	std::optional<bool> condition;

	for (auto& argument : arguments)
	{
		if (condition || argument.second.type() != response::Type::Boolean
			|| argument.first != "if")
		{
			std::ostringstream error;

			error << "Invalid argument to directive: " << name << " name: " << argument.first;

			throw schema_exception { { error.str() } };
		}

		condition = argument.second.get<response::BooleanType>();
	}

	if (!condition)
	{
		std::ostringstream error;

		error << "Missing argument directive: " << name << " name: if";

		throw schema_exception { { error.str() } };
	}

	return condition;
}

bool DirectiveVisitor::shouldSkip() const
{
	if (directiveCondition(_directives, "skip").value_or(false))
	{
		return true;
	}

	return !directiveCondition(_directives, "include").value_or(true);
}
'''))
R("field-names", ('''	std::string_view name;

	peg::on_first_child<peg::field_name>(field, [&name](const peg::ast_node& child) {
		name = child.string_view();
	});

	std::string_view alias;

	peg::on_first_child<peg::alias_name>(field, [&alias](const peg::ast_node& child) {
		alias = child.string_view();
	});

	if (alias.empty())
	{
		alias = name;
	}

	if (!_names.emplace(alias).second)
	{
		// Skip resolving fields which map to the same response name as a field we've already
		// resolved. Validation should handle merging multiple references to the same field or
		// to compatible fields.
		return;
	}
''', '''	std::string_view name;
	std::string_view alias;

	peg::on_first_child<peg::alias_name>(field, [&alias](const peg::ast_node& child) {
		alias = child.string_view();
	});

	peg::on_first_child<peg::field_name>(field, [&name](const peg::ast_node& child) {
		name = child.string_view();
	});

	alias = alias.empty() ? name : alias;

	const auto [itrName, inserted] = _names.emplace(alias);

	if (!inserted)
	{
		return;
	}
'''))
R("field-adderror", ('''class SelectionVisitor
{
public:''', '''class SelectionVisitor
{
private:
	void addFailure(std::string_view alias, std::list<schema_error>&& errors)
	{
		std::promise<ResolverResult> promise;

		promise.set_exception(std::make_exception_ptr(schema_exception { std::move(errors) }));
		_values.push_back({ alias, promise.get_future() });
	}

public:'''), ('''		std::promise<ResolverResult> promise;
		auto position = field.begin();
		std::ostringstream error;

		error << "Unknown field name: " << name;

		promise.set_exception(
			std::make_exception_ptr(schema_exception { { schema_error { error.str(),
				{ position.line, position.column },
				buildErrorPath(_path ? std::make_optional(_path->get()) : std::nullopt) } } }));

		_values.push_back({ alias, promise.get_future() });
		return;
''', '''		auto position = field.begin();
		std::ostringstream error;

		error << "Unknown field name: " << name;

		addFailure(alias, { schema_error { error.str(),
				{ position.line, position.column },
				buildErrorPath(_path ? std::make_optional(_path->get()) : std::nullopt) } });
		return;
'''), ('''		promise.set_exception(std::make_exception_ptr(schema_exception { std::move(messages) }));

		_values.push_back({ alias, promise.get_future() });
	}
''', '''		addFailure(alias, std::move(messages));
	}
'''), ('''	catch (schema_exception& scx)
	{
		std::promise<ResolverResult> promise;
		auto position = field.begin();
		auto messages''', '''	catch (schema_exception& scx)
	{
		auto position = field.begin();
		auto messages'''), ('''		std::promise<ResolverResult> promise;
		auto position = field.begin();
		std::ostringstream message;

		message << "Field error name: " << alias << " unknown error: " << ex.what();

		promise.set_exception(
			std::make_exception_ptr(schema_exception { { schema_error { message.str(),
				{ position.line, position.column },
				buildErrorPath(selectionSetParams.errorPath) } } }));

		_values.push_back({ alias, promise.get_future() });
''', '''		auto position = field.begin();
		std::ostringstream message;

		message << "Field error name: " << alias << " unknown error: " << ex.what();

		std::list<schema_error> errors;

		errors.push_back({ message.str(),
				{ position.line, position.column },
				buildErrorPath(selectionSetParams.errorPath) });
		addFailure(alias, std::move(errors));
'''))
R("field-callresolver", ('''	try
	{
		auto result = itrResolver->second(ResolverParams(selectionSetParams,
			field,
			std::string(alias),
			std::move(arguments),
			directiveVisitor.getDirectives(),
			selection,
			_fragments,
			_variables));

		_values.push_back({ alias, std::move(result) });
	}
''', '''	try
	{
		const auto& resolver = itrResolver->second;
		ResolverParams resolverParams(selectionSetParams,
			field,
			std::string { alias },
			std::move(arguments),
			directiveVisitor.getDirectives(),
			selection,
			_fragments,
			_variables);

		_values.emplace_back(alias, resolver(std::move(resolverParams)));
	}
'''))
R("merge-helper", ('''class SelectionVisitor
{
public:''', '''static void mergeDirectives(response::Value& inner, const response::Value& outer)
{
	for (const auto& entry : outer)
	{
		if (inner.find(entry.first) == inner.end())
		{
			inner.emplace_back(std::string { entry.first }, response::Value(entry.second));
		}
	}
}

class SelectionVisitor
{
public:'''), ('''	for (const auto& entry : _fragmentDirectives.back().fragmentSpreadDirectives)
	{
		if (fragmentSpreadDirectives.find(entry.first) == fragmentSpreadDirectives.end())
		{
			fragmentSpreadDirectives.emplace_back(std::string { entry.first },
				response::Value(entry.second));
		}
	}
''', '''	mergeDirectives(fragmentSpreadDirectives, _fragmentDirectives.back().fragmentSpreadDirectives);
'''), ('''	for (const auto& entry : _fragmentDirectives.back().fragmentDefinitionDirectives)
	{
		if (fragmentDefinitionDirectives.find(entry.first) == fragmentDefinitionDirectives.end())
		{
			fragmentDefinitionDirectives.emplace_back(std::string { entry.first },
				response::Value(entry.second));
		}
	}
''', '''	mergeDirectives(fragmentDefinitionDirectives,
		_fragmentDirectives.back().fragmentDefinitionDirectives);
'''), ('''				for (const auto& entry : _fragmentDirectives.back().inlineFragmentDirectives)
				{
					if (inlineFragmentDirectives.find(entry.first)
						== inlineFragmentDirectives.end())
					{
						inlineFragmentDirectives.emplace_back(std::string { entry.first },
							response::Value(entry.second));
					}
				}
''', '''				mergeDirectives(inlineFragmentDirectives,
					_fragmentDirectives.back().inlineFragmentDirectives);
'''))
R("spread-early", ('''	bool skip = (_typeNames.find(itr->second.getType()) == _typeNames.end());
	DirectiveVisitor directiveVisitor(_variables);

	if (!skip)
	{
		peg::on_first_child<peg::directives>(fragmentSpread,
			[&directiveVisitor](const peg::ast_node& child) {
				directiveVisitor.visit(child);
			});

		skip = directiveVisitor.shouldSkip();
	}

	if (skip)
	{
		return;
	}
''', '''	const auto& fragment = itr->second;

	if (_typeNames.find(fragment.getType()) == _typeNames.end())
	{
		return;
	}

	DirectiveVisitor directiveVisitor(_variables);

	peg::on_first_child<peg::directives>(fragmentSpread,
		[&directiveVisitor](const peg::ast_node& child) {
			directiveVisitor.visit(child);
		});

	if (directiveVisitor.shouldSkip())
	{
		return;
	}
'''), ('''	const size_t count = itr->second.getSelection().children.size();

	if (count > 1)
	{
		_names.reserve(_names.capacity() + count - 1);
		_values.reserve(_values.capacity() + count - 1);
	}

	for (const auto& selection : itr->second.getSelection().children)
	{
''', '''	for (const auto& selection : fragment.getSelection().children)
	{
'''))
R("children-helper", ('''	void visitInlineFragment(const peg::ast_node& inlineFragment);

	const ResolverContext _resolverContext;''', '''	void visitInlineFragment(const peg::ast_node& inlineFragment);

	void visitChildren(const peg::ast_node& selectionSet)
	{
		const size_t count = selectionSet.children.size();

		if (count > 1)
		{
			_names.reserve(_names.capacity() + count - 1);
			_values.reserve(_values.capacity() + count - 1);
		}

		for (const auto& selection : selectionSet.children)
		{
			visit(*selection);
		}
	}

	const ResolverContext _resolverContext;'''), ('''	const size_t count = itr->second.getSelection().children.size();

	if (count > 1)
	{
		_names.reserve(_names.capacity() + count - 1);
		_values.reserve(_values.capacity() + count - 1);
	}

	for (const auto& selection : itr->second.getSelection().children)
	{
		visit(*selection);
	}
''', '''	visitChildren(itr->second.getSelection());
'''), ('''				const size_t count = child.children.size();

				if (count > 1)
				{
					_names.reserve(_names.capacity() + count - 1);
					_values.reserve(_values.capacity() + count - 1);
				}

				for (const auto& selection : child.children)
				{
					visit(*selection);
				}
''', '''				visitChildren(child);
'''))
R("inline-pointer", ('''	if (typeCondition == nullptr
		|| _typeNames.find(typeCondition->children.front()->string_view()) != _typeNames.end())
	{
		peg::on_first_child<peg::selection_set>(inlineFragment,
			[this, &directiveVisitor](const peg::ast_node& child) {
				auto''', '''	const bool applies = (typeCondition == nullptr)
		|| matches(typeCondition->children.front()->string_view());

	if (!applies)
	{
		return;
	}

	{
		peg::on_first_child<peg::selection_set>(inlineFragment,
			[this, &directiveVisitor](const peg::ast_node& child) {
				auto'''), ('''	void visitInlineFragment(const peg::ast_node& inlineFragment);

	const ResolverContext _resolverContext;''', '''	void visitInlineFragment(const peg::ast_node& inlineFragment);

	bool matches(std::string_view typeName) const
	{
		return _typeNames.find(typeName) != _typeNames.end();
	}

	const ResolverContext _resolverContext;'''))
R("collect-named", ('''	return std::async(
		selectionSetParams.launch,
		[](std::vector<std::pair<std::string_view, std::future<ResolverResult>>>&& children) {
			ResolverResult document { response::Value { response::Type::Map } };
''', '''	return std::async(selectionSetParams.launch, &collectFields, visitor.getValues());
}

ResolverResult collectFields(std::vector<std::pair<std::string_view, std::future<ResolverResult>>>&& children)
{
			ResolverResult document { response::Value { response::Type::Map } };
'''), ('''					document.errors.push_back({ message.str() });
					document.data.emplace_back(std::string { name }, {});
				}
			}

			return document;
		},
		visitor.getValues());
}
''', '''					document.errors.push_back({ message.str() });
					document.data.emplace_back(std::string { name }, {});
				}
			}

			return document;
}
'''), ('''std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionSetParams,''', '''static ResolverResult collectFields(
	std::vector<std::pair<std::string_view, std::future<ResolverResult>>>&& children);

std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionSetParams,'''))
R("collect-splice", ('''					auto errors = scx.getStructuredErrors();

					if (!errors.empty())
					{
						std::copy(errors.begin(),
							errors.end(),
							std::back_inserter(document.errors));
					}

					document.data.emplace_back(std::string { name }, {});
''', '''					document.errors.splice(document.errors.end(), scx.getStructuredErrors());
					document.data.emplace_back(std::string { name }, response::Value {});
'''), ('''			for (auto& child : children)
			{
				auto name = child.first;

				try
				{
					auto value = child.second.get();
''', '''			for (auto& [name, future] : children)
			{
				try
				{
					auto value = future.get();
'''))
R("vars-helper", ('''// OperationDefinitionVisitor visits the AST and executes the one with the specified''', '''static response::Value operationVariablesOf(const peg::ast_node& operationDefinition, const response::Value& requestVariables)
{
	response::Value operationVariables(response::Type::Map);

	peg::for_each_child<peg::variable>(operationDefinition,
		[&requestVariables, &operationVariables](const peg::ast_node& variable) {
			std::string variableName;

			peg::on_first_child<peg::variable_name>(variable,
				[&variableName](const peg::ast_node& name) {
					// Skip the $ prefix
					variableName = name.string_view().substr(1);
				});

			auto itrVar = requestVariables.find(variableName);
			response::Value valueVar;

			if (itrVar == requestVariables.end())
			{
				peg::on_first_child<peg::default_value>(variable,
					[&requestVariables, &valueVar](const peg::ast_node& defaultValue) {
						ValueVisitor visitor(requestVariables);

						visitor.visit(*defaultValue.children.front());
						valueVar = visitor.getValue();
					});
			}
			else
			{
				valueVar = response::Value(itrVar->second);
			}

			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
		});

	return operationVariables;
}

// OperationDefinitionVisitor visits the AST and executes the one with the specified'''), ('''	// Filter the variable definitions down to the ones referenced in this operation
	response::Value operationVariables(response::Type::Map);

	peg::for_each_child<peg::variable>(operationDefinition,
		[this, &operationVariables](const peg::ast_node& variable) {
			std::string variableName;

			peg::on_first_child<peg::variable_name>(variable,
				[&variableName](const peg::ast_node& name) {
					// Skip the $ prefix
					variableName = name.string_view().substr(1);
				});

			auto itrVar = _params->variables.find(variableName);
			response::Value valueVar;

			if (itrVar != _params->variables.get<response::MapType>().cend())
			{
				valueVar = response::Value(itrVar->second);
			}
			else
			{
				peg::on_first_child<peg::default_value>(variable,
					[this, &valueVar](const peg::ast_node& defaultValue) {
						ValueVisitor visitor(_params->variables);

						visitor.visit(*defaultValue.children.front());
						valueVar = visitor.getValue();
					});
			}

			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
		});

	_params->variables = std::move(operationVariables);
''', '''	// Filter the variable definitions down to the ones referenced in this operation
	_params->variables = operationVariablesOf(operationDefinition, _params->variables);
'''), ('''	// Filter the variable definitions down to the ones referenced in this operation
	response::Value operationVariables(response::Type::Map);

	peg::for_each_child<peg::variable>(operationDefinition,
		[this, &operationVariables](const peg::ast_node& variable) {
			std::string variableName;

			peg::on_first_child<peg::variable_name>(variable,
				[&variableName](const peg::ast_node& name) {
					// Skip the $ prefix
					variableName = name.string_view().substr(1);
				});

			auto itrVar = _params.variables.find(variableName);
			response::Value valueVar;

			if (itrVar != _params.variables.get<response::MapType>().cend())
			{
				valueVar = response::Value(itrVar->second);
			}
			else
			{
				peg::on_first_child<peg::default_value>(variable,
					[this, &valueVar](const peg::ast_node& defaultValue) {
						ValueVisitor visitor(_params.variables);

						visitor.visit(*defaultValue.children.front());
						valueVar = visitor.getValue();
					});
			}

			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
		});

	_params.variables = std::move(operationVariables);
''', '''	// Filter the variable definitions down to the ones referenced in this operation
	_params.variables = operationVariablesOf(operationDefinition, _params.variables);
'''))
