V = "src/Validation.cpp"; H = "include/Validation.h"
REFS = []
def R(id, *edits, count=1, **k):
    REFS.append(dict(id=id, count=count, compile=V, edits=[(e if len(e) == 3 else (V,) + e) for e in edits], **k))

R("doc-frag-loop", ('''	peg::for_each_child<peg::fragment_definition>(root,
		[this](const peg::ast_node& fragmentDefinition) {
			const auto& fragmentName = fragmentDefinition.children.front();
			const auto inserted =
				_fragmentDefinitions.emplace(fragmentName->string_view(), fragmentDefinition);

			if (!inserted.second)
			{
				// http://spec.graphql.org/June2018/#sec-Fragment-Name-Uniqueness
				auto position = fragmentDefinition.begin();
				std::ostringstream error;

				error << "Duplicate fragment name: " << inserted.first->first;

				_errors.push_back({ error.str(), { position.line, position.column } });
			}
		});
''', '''	for (const auto& child : root.children)
	{
		if (!child->is_type<peg::fragment_definition>())
		{
			continue;
		}

		const auto& fragmentDefinition = *child;
		const auto fragmentName = fragmentDefinition.children.front()->string_view();

		if (_fragmentDefinitions.find(fragmentName) == _fragmentDefinitions.end())
		{
			_fragmentDefinitions.emplace(fragmentName, fragmentDefinition);
			continue;
		}

		auto position = fragmentDefinition.begin();
		std::ostringstream error;

		error << "Duplicate fragment name: " << fragmentName;

		_errors.push_back({ error.str(), { position.line, position.column } });
	}
'''))
R("doc-ops-first", ('''	// Visit all of the fragment definitions and check for duplicates.
	peg::for_each_child<peg::fragment_definition>(root,
		[this](const peg::ast_node& fragmentDefinition) {
			const auto& fragmentName = fragmentDefinition.children.front();
			const auto inserted =
				_fragmentDefinitions.emplace(fragmentName->string_view(), fragmentDefinition);

			if (!inserted.second)
			{
				// http://spec.graphql.org/June2018/#sec-Fragment-Name-Uniqueness
				auto position = fragmentDefinition.begin();
				std::ostringstream error;

				error << "Duplicate fragment name: " << inserted.first->first;

				_errors.push_back({ error.str(), { position.line, position.column } });
			}
		});
''', '''	const auto reportDuplicate = [this](std::string_view what, std::string_view name, const peg::ast_node& node) {
		auto position = node.begin();
		std::ostringstream error;

		error << "Duplicate " << what << " name: " << name;

		_errors.push_back({ error.str(), { position.line, position.column } });
	};

	// Visit all of the fragment definitions and check for duplicates.
	peg::for_each_child<peg::fragment_definition>(root,
		[this, &reportDuplicate](const peg::ast_node& fragmentDefinition) {
			const auto& fragmentName = fragmentDefinition.children.front();
			const auto [itr, inserted] =
				_fragmentDefinitions.emplace(fragmentName->string_view(), fragmentDefinition);

			if (!inserted)
			{
				reportDuplicate("fragment", itr->first, fragmentDefinition);
			}
		});
'''), ('''		[this](const peg::ast_node& operationDefinition) {
			std::string_view operationName;
''', '''		[this, &reportDuplicate](const peg::ast_node& operationDefinition) {
			std::string_view operationName;
'''), ('''			if (!inserted.second)
			{
				// http://spec.graphql.org/June2018/#sec-Operation-Name-Uniqueness
				auto position = operationDefinition.begin();
				std::ostringstream error;

				error << "Duplicate operation name: " << inserted.first->first;

				_errors.push_back({ error.str(), { position.line, position.column } });
			}
''', '''			if (inserted.second)
			{
				return;
			}

			reportDuplicate("operation", inserted.first->first, operationDefinition);
'''))
R("doc-anon-find", ('''		auto itr = std::find_if(_operationDefinitions.begin(),
			_operationDefinitions.end(),
			[](const auto& entry) noexcept {
				return entry.first.empty();
			});
''', '''		auto itr = _operationDefinitions.find(std::string_view {});
'''))
R("doc-anon-loop", ('''		auto itr = std::find_if(_operationDefinitions.begin(),
			_operationDefinitions.end(),
			[](const auto& entry) noexcept {
				return entry.first.empty();
			});

		if (itr != _operationDefinitions.end())
		{
			// http://spec.graphql.org/June2018/#sec-Lone-Anonymous-Operation
			auto position = itr->second.get().begin();

			_errors.push_back(
				{ "Anonymous operation not alone", { position.line, position.column } });
		}
''', '''		for (const auto& entry : _operationDefinitions)
		{
			if (entry.first.empty())
			{
				// http://spec.graphql.org/June2018/#sec-Lone-Anonymous-Operation
				auto position = entry.second.get().begin();

				_errors.push_back(
					{ "Anonymous operation not alone", { position.line, position.column } });
				break;
			}
		}
'''))
R("doc-unused-loop", ('''		const size_t originalSize = _errors.size();
		auto unreferencedFragments = std::move(_fragmentDefinitions);

		for (const auto& name : _referencedFragments)
		{
			unreferencedFragments.erase(name);
		}

		std::transform(unreferencedFragments.begin(),
			unreferencedFragments.end(),
			std::back_inserter(_errors),
			[](const auto& fragmentDefinition) noexcept {
				auto position = fragmentDefinition.second.get().begin();
				std::ostringstream message;

				message << "Unused fragment definition name: " << fragmentDefinition.first;

				return schema_error { message.str(), { position.line, position.column } };
			});
''', '''		for (const auto& fragmentDefinition : _fragmentDefinitions)
		{
			if (_referencedFragments.find(fragmentDefinition.first) != _referencedFragments.end())
			{
				continue;
			}

			auto position = fragmentDefinition.second.get().begin();
			std::ostringstream message;

			message << "Unused fragment definition name: " << fragmentDefinition.first;

			_errors.push_back({ message.str(), { position.line, position.column } });
		}
'''))
R("doc-dispatch", ('''	for (const auto& child : root.children)
	{
		if (child->is_type<peg::fragment_definition>())
		{
			visitFragmentDefinition(*child);
		}
		else if (child->is_type<peg::operation_definition>())
		{
			visitOperationDefinition(*child);
		}
		else
		{
			// http://spec.graphql.org/June2018/#sec-Executable-Definitions
			auto position = child->begin();

			_errors.push_back({ "Unexpected type definition", { position.line, position.column } });
		}
	}
''', '''	for (const auto& child : root.children)
	{
		const auto& definition = *child;

		if (definition.is_type<peg::operation_definition>())
		{
			visitOperationDefinition(definition);
			continue;
		}

		if (definition.is_type<peg::fragment_definition>())
		{
			visitFragmentDefinition(definition);
			continue;
		}

		// http://spec.graphql.org/June2018/#sec-Executable-Definitions
		auto position = definition.begin();

		_errors.push_back({ "Unexpected type definition", { position.line, position.column } });
	}
'''))
R("errors-swap", ('''	auto errors = std::move(_errors);

	// Reset all of the state for this query, but keep the Introspection schema information.
	_fragmentDefinitions.clear();
	_operationDefinitions.clear();
	_referencedFragments.clear();
	_fragmentCycles.clear();

	return errors;
''', '''	std::list<schema_error> errors;

	std::swap(errors, _errors);

	// Reset all of the state for this query, but keep the Introspection schema information.
	_fragmentCycles.clear();
	_referencedFragments.clear();
	_operationDefinitions.clear();
	_fragmentDefinitions.clear();

	return errors;
'''))
R("fragdef-split", ('''	if (itrType == _types.end() || isScalarType(itrType->second->get().kind()))
	{
		// http://spec.graphql.org/June2018/#sec-Fragment-Spread-Type-Existence
		// http://spec.graphql.org/June2018/#sec-Fragments-On-Composite-Types
		auto position = typeCondition->begin();
		std::ostringstream message;

		message << (itrType == _types.end() ? "Undefined target type on fragment definition: "
											: "Scalar target type on fragment definition: ")
				<< name << " name: " << innerType;

		_errors.push_back({ message.str(), { position.line, position.column } });
		return;
	}

	_fragmentStack.emplace(name);
	_scopedType = itrType->second;
''', '''	if (itrType == _types.end())
	{
		// http://spec.graphql.org/June2018/#sec-Fragment-Spread-Type-Existence
		auto position = typeCondition->begin();
		std::ostringstream message;

		message << "Undefined target type on fragment definition: " << name << " name: " << innerType;

		_errors.push_back({ message.str(), { position.line, position.column } });
		return;
	}

	const auto& type = itrType->second;

	if (isScalarType(type->get().kind()))
	{
		// http://spec.graphql.org/June2018/#sec-Fragments-On-Composite-Types
		auto position = typeCondition->begin();
		std::ostringstream message;

		message << "Scalar target type on fragment definition: " << name << " name: " << innerType;

		_errors.push_back({ message.str(), { position.line, position.column } });
		return;
	}

	_scopedType = type;
	_fragmentStack.emplace(name);
'''))
R("opdef-helper", ('''	_operationVariables = std::make_optional<VariableTypes>();

	peg::for_each_child<peg::variable>(operationDefinition,
		[this, operationName](const peg::ast_node& variable) {
			std::string_view variableName;
''', '''	_operationVariables = std::make_optional<VariableTypes>();

	const auto addError = [this, operationName](const char* prefix, std::string_view name, const peg::ast_node& node) {
		auto position = node.begin();
		std::ostringstream message;

		message << prefix;

		if (!operationName.empty())
		{
			message << " operation: " << operationName;
		}

		message << " name: " << name;

		_errors.push_back({ message.str(), { position.line, position.column } });
	};

	peg::for_each_child<peg::variable>(operationDefinition,
		[this, &addError](const peg::ast_node& variable) {
			std::string_view variableName;
'''), ('''						// http://spec.graphql.org/June2018/#sec-Variable-Uniqueness
						auto position = child->begin();
						std::ostringstream message;

						message << "Conflicting variable";

						if (!operationName.empty())
						{
							message << " operation: " << operationName;
						}

						message << " name: " << variableName;

						_errors.push_back({ message.str(), { position.line, position.column } });
						return;
''', '''						addError("Conflicting variable", variableName, *child);
						return;
'''), ('''						auto position = child->begin();
						std::ostringstream message;

						message << "Invalid variable type";

						if (!operationName.empty())
						{
							message << " operation: " << operationName;
						}

						message << " name: " << variableName;

						_errors.push_back({ message.str(), { position.line, position.column } });
						return;
''', '''						addError("Invalid variable type", variableName, *child);
						return;
'''), ('''						auto position = child->begin();
						std::ostringstream message;

						message << "Incompatible variable default value";

						if (!operationName.empty())
						{
							message << " operation: " << operationName;
						}

						message << " name: " << variableName;

						_errors.push_back({ message.str(), { position.line, position.column } });
						return;
''', '''						addError("Incompatible variable default value", variableName, *child);
						return;
'''))
R("opdef-varcount", ('''					if (_operationVariables->find(variableName) != _operationVariables->end())
''', '''					const auto known = _operationVariables->find(variableName);

					if (known != _operationVariables->end())
'''), ('''		if (_referencedVariables.find(variable.first) == _referencedVariables.end())
		{
			// http://spec.graphql.org/June2018/#sec-All-Variables-Used
			auto position = variable.second.get().begin();
			std::ostringstream error;

			error << "Unused variable name: " << variable.first;

			_errors.push_back({ error.str(), { position.line, position.column } });
		}
''', '''		if (_referencedVariables.find(variable.first) != _referencedVariables.end())
		{
			continue;
		}

		// http://spec.graphql.org/June2018/#sec-All-Variables-Used
		auto position = variable.second.get().begin();
		std::ostringstream error;

		error << "Unused variable name: " << variable.first;

		_errors.push_back({ error.str(), { position.line, position.column } });
'''))
R("opdef-structured", ('''	for (const auto& variable : _variableDefinitions)
	{
		if (_referencedVariables.find(variable.first) == _referencedVariables.end())
		{
			// http://spec.graphql.org/June2018/#sec-All-Variables-Used
			auto position = variable.second.get().begin();
			std::ostringstream error;

			error << "Unused variable name: " << variable.first;
''', '''	for (const auto& [name, definition] : _variableDefinitions)
	{
		if (_referencedVariables.find(name) == _referencedVariables.end())
		{
			// http://spec.graphql.org/June2018/#sec-All-Variables-Used
			auto position = definition.get().begin();
			std::ostringstream error;

			error << "Unused variable name: " << name;
'''))
R("opdef-location", ('''			auto location = introspection::DirectiveLocation::QUERY;

			if (operationType == strMutation)
			{
				location = introspection::DirectiveLocation::MUTATION;
			}
			else if (operationType == strSubscription)
			{
				location = introspection::DirectiveLocation::SUBSCRIPTION;
			}

			visitDirectives(location, child);
''', '''			const auto location = operationType == strMutation
				? introspection::DirectiveLocation::MUTATION
				: operationType == strSubscription ? introspection::DirectiveLocation::SUBSCRIPTION
												   : introspection::DirectiveLocation::QUERY;

			visitDirectives(location, child);
'''))
R("opdef-sub-flag", ('''	_scopedType = itrType->second;
	_fieldCount = 0;

	const auto& selection = *operationDefinition.children.back();

	visitSelection(selection);

	if (_fieldCount > 1 && operationType == strSubscription)
	{
''', '''	const bool isSubscription = (operationType == strSubscription);

	_fieldCount = 0;
	_scopedType = itrType->second;

	visitSelection(*operationDefinition.children.back());

	if (isSubscription && _fieldCount >= 2)
	{
'''))
R("opdef-child-switch", ('''				else if (child->is_type<peg::named_type>() || child->is_type<peg::list_type>()
					|| child->is_type<peg::nonnull_type>())
				{
					ValidateVariableTypeVisitor visitor(_schema, _types);

					visitor.visit(*child);

					if (!visitor.isInputType())
					{
''', '''				else if (const bool isType = child->is_type<peg::named_type>()
						|| child->is_type<peg::list_type>() || child->is_type<peg::nonnull_type>();
						 isType)
				{
					ValidateVariableTypeVisitor visitor { _schema, _types };

					visitor.visit(*child);

					const bool input = visitor.isInputType();

					if (!input)
					{
'''))
R("selection-flip", ('''		if (child->is_type<peg::field>())
		{
			visitField(*child);
		}
		else if (child->is_type<peg::fragment_spread>())
		{
			visitFragmentSpread(*child);
		}
		else if (child->is_type<peg::inline_fragment>())
		{
			visitInlineFragment(*child);
		}
''', '''		const auto& node = *child;

		if (node.is_type<peg::inline_fragment>())
		{
			visitInlineFragment(node);
			continue;
		}

		if (node.is_type<peg::fragment_spread>())
		{
			visitFragmentSpread(node);
			continue;
		}

		if (node.is_type<peg::field>())
		{
			visitField(node);
		}
'''))
R("selection-foreach", ('''	for (const auto& child : selection.children)
	{
		if (child->is_type<peg::field>())
		{
			visitField(*child);
		}
''', '''	for (auto itr = selection.children.cbegin(); itr != selection.children.cend(); ++itr)
	{
		const auto& child = *itr;

		if (child->is_type<peg::field>())
		{
			visitField(*child);
		}
'''))
R("args-default", ('''		argument.defaultValue = !arg->defaultValue().empty();
		argument.nonNullDefaultValue =
			argument.defaultValue && arg->defaultValue() != R"gql(null)gql"sv;
		argument.type = getValidateType(arg->type().lock());

		result[arg->name()] = std::move(argument);
''', '''		const auto defaultValue = arg->defaultValue();

		argument.type = getValidateType(arg->type().lock());
		argument.defaultValue = !defaultValue.empty();
		argument.nonNullDefaultValue =
			!defaultValue.empty() && defaultValue != R"gql(null)gql"sv;

		result[arg->name()] = std::move(argument);
'''))
R("scalar-return", ('''	switch (kind)
	{
		case introspection::TypeKind::OBJECT:
		case introspection::TypeKind::INTERFACE:
		case introspection::TypeKind::UNION:
			return false;

		default:
			return true;
	}
''', '''	return kind != introspection::TypeKind::OBJECT && kind != introspection::TypeKind::INTERFACE
		&& kind != introspection::TypeKind::UNION;
'''))
R("matches-loop", ('''	if (itrScoped != _matchingTypes.end() && itrNamed != _matchingTypes.end())
	{
		const auto itrMatch = std::find_if(itrScoped->second.begin(),
			itrScoped->second.end(),
			[this, itrNamed](std::string_view matchingType) noexcept {
				return itrNamed->second.find(matchingType) != itrNamed->second.end();
			});

		return itrMatch != itrScoped->second.end();
	}

	return false;
''', '''	if (itrScoped == _matchingTypes.end() || itrNamed == _matchingTypes.end())
	{
		return false;
	}

	for (const auto& matchingType : itrScoped->second)
	{
		if (itrNamed->second.find(matchingType) != itrNamed->second.end())
		{
			return true;
		}
	}

	return false;
'''))
R("matches-anyof", ('''		const auto itrMatch = std::find_if(itrScoped->second.begin(),
			itrScoped->second.end(),
			[this, itrNamed](std::string_view matchingType) noexcept {
				return itrNamed->second.find(matchingType) != itrNamed->second.end();
			});

		return itrMatch != itrScoped->second.end();
''', '''		return std::any_of(itrScoped->second.begin(),
			itrScoped->second.end(),
			[itrNamed](std::string_view matchingType) noexcept {
				return itrNamed->second.find(matchingType) != itrNamed->second.end();
			});
'''))
R("input-early", ('''		if (_operationVariables)
		{
			const auto& variable = std::get<ValidateArgumentVariable>(argument.value->data);
			auto itrVariable = _operationVariables->find(variable.name);

			if (itrVariable == _operationVariables->end())
			{
				// http://spec.graphql.org/June2018/#sec-All-Variable-Uses-Defined
				std::ostringstream message;

				message << "Undefined variable name: " << variable.name;

				_errors.push_back({ message.str(), argument.position });
				return false;
			}

			_referencedVariables.emplace(variable.name);

			return validateVariableType(
				hasNonNullDefaultValue || itrVariable->second.nonNullDefaultValue,
				itrVariable->second.type,
				argument.position,
				type);
		}
		else
		{
			// In fragment definitions, variables can hold any type. It's only when we are
			// transitively visiting them through an operation definition that they are assigned a
			// type, and the type may not be exactly the same in all operations definitions which
			// reference the fragment.
			return true;
		}
''', '''		if (!_operationVariables.has_value())
		{
			// In fragment definitions, variables can hold any type.
			return true;
		}

		const auto variableName = std::get<ValidateArgumentVariable>(argument.value->data).name;
		const auto& variables = *_operationVariables;
		const auto itrVariable = variables.find(variableName);

		if (itrVariable != variables.end())
		{
			const auto& definition = itrVariable->second;
			const bool nonNullDefault = definition.nonNullDefaultValue || hasNonNullDefaultValue;

			_referencedVariables.emplace(variableName);

			return validateVariableType(nonNullDefault, definition.type, argument.position, type);
		}

		std::ostringstream message;

		message << "Undefined variable name: " << variableName;

		_errors.push_back({ message.str(), argument.position });
		return false;
'''))
R("input-getif", ('''			if (!std::holds_alternative<ValidateArgumentList>(argument.value->data))
			{
				_errors.push_back({ "Expected List value", argument.position });
				return false;
			}
''', '''			const auto* list = std::get_if<ValidateArgumentList>(&argument.value->data);

			if (list == nullptr)
			{
				_errors.push_back({ "Expected List value", argument.position });
				return false;
			}
'''), ('''			for (const auto& value : std::get<ValidateArgumentList>(argument.value->data).values)
''', '''			for (const auto& value : list->values)
'''))
R("input-list-allof", ('''			for (const auto& value : std::get<ValidateArgumentList>(argument.value->data).values)
			{
				if (!validateInputValue(false, value, ofType))
				{
					// Error messages are added in the recursive call, so just bubble up the result.
					return false;
				}
			}

			return true;
''', '''			const auto& values = std::get<ValidateArgumentList>(argument.value->data).values;

			return std::all_of(values.begin(), values.end(), [this, &ofType](const auto& value) {
				return validateInputValue(false, value, ofType);
			});
'''))
R("input-enum-split", ('''			if (itrEnumValues == _enumValues.end()
				|| itrEnumValues->second.find(value) == itrEnumValues->second.end())
			{
				std::ostringstream message;

				message << "Undefined Enum value type: " << name << " name: " << value;

				_errors.push_back({ message.str(), argument.position });
				return false;
			}

			return true;
''', '''			const bool defined = itrEnumValues != _enumValues.end()
				&& itrEnumValues->second.find(value) != itrEnumValues->second.end();

			if (!defined)
			{
				std::ostringstream message;

				message << "Undefined Enum value type: " << name << " name: " << value;

				_errors.push_back({ message.str(), argument.position });
			}

			return defined;
'''))
R("input-scalar-helper", (H, '''	bool validateInputValue(''', '''	bool validateScalarValue(const ValidateArgumentValuePtr& argument, const ValidateType& type);
	bool validateInputValue('''), ('''		case introspection::TypeKind::SCALAR:
		{
			const auto name = type->get().name();

			if (name.empty())
			{
				_errors.push_back({ "Unknown Scalar value", argument.position });
				return false;
			}

			if (name == R"gql(Int)gql"sv)
			{
				if (!std::holds_alternative<response::IntType>(argument.value->data))
				{
					_errors.push_back({ "Expected Int value", argument.position });
					return false;
				}
			}
			else if (name == R"gql(Float)gql"sv)
			{
				if (!std::holds_alternative<response::FloatType>(argument.value->data)
					&& !std::holds_alternative<response::IntType>(argument.value->data))
				{
					_errors.push_back({ "Expected Float value", argument.position });
					return false;
				}
			}
			else if (name == R"gql(String)gql"sv)
			{
				if (!std::holds_alternative<std::string_view>(argument.value->data))
				{
					_errors.push_back({ "Expected String value", argument.position });
					return false;
				}
			}
			else if (name == R"gql(ID)gql"sv)
			{
				if (std::holds_alternative<std::string_view>(argument.value->data))
				{
					try
					{
						auto decoded = internal::Base64::fromBase64(
							std::get<std::string_view>(argument.value->data));

						return true;
					}
					catch (const std::logic_error&)
					{
						// Eat the exception and fail validation
					}
				}

				_errors.push_back({ "Expected ID value", argument.position });
				return false;
			}
			else if (name == R"gql(Boolean)gql"sv)
			{
				if (!std::holds_alternative<response::BooleanType>(argument.value->data))
				{
					_errors.push_back({ "Expected Boolean value", argument.position });
					return false;
				}
			}

			if (_scalarTypes.find(name) == _scalarTypes.end())
			{
				std::ostringstream message;

				message << "Undefined Scalar type name: " << name;

				_errors.push_back({ message.str(), argument.position });
				return false;
			}

			return true;
		}

		default:
		{
			_errors.push_back({ "Unexpected value type", argument.position });
			return false;
		}
	}
}
''', '''		case introspection::TypeKind::SCALAR:
			return validateScalarValue(argument, type);

		default:
			_errors.push_back({ "Unexpected value type", argument.position });
			return false;
	}
}

bool ValidateExecutableVisitor::validateScalarValue(
	const ValidateArgumentValuePtr& argument, const ValidateType& type)
{
	const auto name = type->get().name();

	if (name.empty())
	{
		_errors.push_back({ "Unknown Scalar value", argument.position });
		return false;
	}

	const auto& data = argument.value->data;
	const char* expected = nullptr;

	if (name == R"gql(Int)gql"sv)
	{
		if (!std::holds_alternative<response::IntType>(data))
		{
			expected = "Expected Int value";
		}
	}
	else if (name == R"gql(Float)gql"sv)
	{
		if (!std::holds_alternative<response::FloatType>(data)
			&& !std::holds_alternative<response::IntType>(data))
		{
			expected = "Expected Float value";
		}
	}
	else if (name == R"gql(String)gql"sv)
	{
		if (!std::holds_alternative<std::string_view>(data))
		{
			expected = "Expected String value";
		}
	}
	else if (name == R"gql(ID)gql"sv)
	{
		if (std::holds_alternative<std::string_view>(data))
		{
			try
			{
				auto decoded = internal::Base64::fromBase64(std::get<std::string_view>(data));

				return true;
			}
			catch (const std::logic_error&)
			{
				// Eat the exception and fail validation
			}
		}

		expected = "Expected ID value";
	}
	else if (name == R"gql(Boolean)gql"sv)
	{
		if (!std::holds_alternative<response::BooleanType>(data))
		{
			expected = "Expected Boolean value";
		}
	}

	if (expected != nullptr)
	{
		_errors.push_back({ expected, argument.position });
		return false;
	}

	if (_scalarTypes.find(name) == _scalarTypes.end())
	{
		std::ostringstream message;

		message << "Undefined Scalar type name: " << name;

		_errors.push_back({ message.str(), argument.position });
		return false;
	}

	return true;
}
'''))
R("input-object-missing", ('''				if (entry.second.defaultValue || subFields.find(entry.first) != subFields.end())
				{
					continue;
				}

				if (!entry.second.type)
''', '''				const auto& [fieldName, inputField] = entry;

				if (inputField.defaultValue)
				{
					continue;
				}

				if (subFields.find(fieldName) != subFields.end())
				{
					continue;
				}

				if (!entry.second.type)
'''))
R("var-combine", ('''		case introspection::TypeKind::ENUM:
		{
			if (variableKind != inputKind)
			{
				// http://spec.graphql.org/June2018/#sec-All-Variable-Usages-are-Allowed
				_errors.push_back({ "Expected Enum variable type", position });
				return false;
			}

			break;
		}

		case introspection::TypeKind::SCALAR:
		{
			if (variableKind != inputKind)
			{
				// http://spec.graphql.org/June2018/#sec-All-Variable-Usages-are-Allowed
				_errors.push_back({ "Expected Scalar variable type", position });
				return false;
			}

			break;
		}
''', '''		case introspection::TypeKind::ENUM:
		case introspection::TypeKind::SCALAR:
		{
			if (variableKind == inputKind)
			{
				break;
			}

			// http://spec.graphql.org/June2018/#sec-All-Variable-Usages-are-Allowed
			_errors.push_back({ inputKind == introspection::TypeKind::ENUM
					? "Expected Enum variable type"
					: "Expected Scalar variable type",
				position });
			return false;
		}
'''))
R("var-last", ('''	if (variableName != inputName)
	{
		// http://spec.graphql.org/June2018/#sec-All-Variable-Usages-are-Allowed
		std::ostringstream message;

		message << "Incompatible variable type: " << variableName << " name: " << inputName;

		_errors.push_back({ message.str(), position });
		return false;
	}

	return true;
''', '''	if (variableName == inputName)
	{
		return true;
	}

	// http://spec.graphql.org/June2018/#sec-All-Variable-Usages-are-Allowed
	std::ostringstream message;

	message << "Incompatible variable type: " << variableName << " name: " << inputName;

	_errors.push_back({ message.str(), position });
	return false;
'''))
R("field-adderror", ('''void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
{
''', '''void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
{
	const auto report = [this, &field](const std::ostringstream& text) {
		const auto position = field.begin();

		_errors.push_back({ text.str(), { position.line, position.column } });
	};

'''), ('''		auto position = field.begin();
		std::ostringstream message;

		message << "Field on scalar type: " << _scopedType->get().name() << " name: " << name;

		_errors.push_back({ message.str(), { position.line, position.column } });
		return;
''', '''		std::ostringstream message;

		message << "Field on scalar type: " << _scopedType->get().name() << " name: " << name;

		report(message);
		return;
'''), ('''		auto position = field.begin();
		std::ostringstream message;

		message << "Undefined field type: " << _scopedType->get().name() << " name: " << name;

		_errors.push_back({ message.str(), { position.line, position.column } });
		return;
''', '''		std::ostringstream message;

		message << "Undefined field type: " << _scopedType->get().name() << " name: " << name;

		report(message);
		return;
'''), ('''		auto position = field.begin();
		std::ostringstream message;

		message << "Missing fields on non-scalar type: " << innerType->get().name();

		_errors.push_back({ message.str(), { position.line, position.column } });
		return;
''', '''		std::ostringstream message;

		message << "Missing fields on non-scalar type: " << innerType->get().name();

		report(message);
		return;
'''))
R("field-merge-flip", ('''	if (itrValidateField != _selectionFields.end())
	{
		if (itrValidateField->second == validateField)
		{
			// We already validated this field.
			return;
		}
		else
		{
			// http://spec.graphql.org/June2018/#sec-Field-Selection-Merging
			auto position = field.begin();
			std::ostringstream message;

			message << "Conflicting field type: " << _scopedType->get().name() << " name: " << name;

			_errors.push_back({ message.str(), { position.line, position.column } });
		}
	}
''', '''	const bool repeated = itrValidateField != _selectionFields.end();

	if (repeated && itrValidateField->second == validateField)
	{
		// We already validated this field.
		return;
	}

	if (repeated)
	{
		// http://spec.graphql.org/June2018/#sec-Field-Selection-Merging
		auto position = field.begin();
		std::ostringstream message;

		message << "Conflicting field type: " << _scopedType->get().name() << " name: " << name;

		_errors.push_back({ message.str(), { position.line, position.column } });
	}
'''))
R("field-selection-lambda", ('''	const peg::ast_node* selection = nullptr;

	peg::on_first_child<peg::selection_set>(field, [&selection](const peg::ast_node& child) {
		selection = &child;
	});

	size_t subFieldCount = 0;

	if (selection != nullptr)
	{
		auto outerType = std::move(_scopedType);
		auto outerFields = std::move(_selectionFields);
		auto outerFieldCount = _fieldCount;

		_fieldCount = 0;
		_selectionFields.clear();
		_scopedType = std::move(innerType);

		visitSelection(*selection);

		innerType = std::move(_scopedType);
		_scopedType = std::move(outerType);
		_selectionFields = std::move(outerFields);
		subFieldCount = _fieldCount;
		_fieldCount = outerFieldCount;
	}
''', '''	size_t subFieldCount = 0;

	peg::on_first_child<peg::selection_set>(field,
		[this, &innerType, &subFieldCount](const peg::ast_node& child) {
			const auto outerFieldCount = _fieldCount;
			auto outerType = std::move(_scopedType);
			auto outerFields = std::move(_selectionFields);

			_selectionFields.clear();
			_scopedType = innerType;
			_fieldCount = 0;

			visitSelection(child);

			_scopedType = std::move(outerType);
			_selectionFields = std::move(outerFields);
			subFieldCount = _fieldCount;
			_fieldCount = outerFieldCount;
		});
'''))
R("field-args-early", ('''			auto itrArgument = validateField.arguments.find(argument.first);
			const bool missing = itrArgument == validateField.arguments.end();

			if (!missing && itrArgument->second.value)
			{
				// The value was not null.
				if (!validateInputValue(argument.second.nonNullDefaultValue,
						itrArgument->second,
						argument.second.type))
				{
					// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
					std::ostringstream message;

					message << "Incompatible argument type: " << _scopedType->get().name()
							<< " field: " << name << " name: " << argument.first;

					_errors.push_back({ message.str(), argumentLocations[argument.first] });
				}

				continue;
			}
			else if (argument.second.defaultValue)
			{
				// The argument has a default value.
				continue;
			}

			// See if the argument is wrapped in NON_NULL
			if (argument.second.type
				&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
			{
''', '''			const auto& [argumentName, definition] = argument;
			const auto itrArgument = validateField.arguments.find(argumentName);
			const bool missing = itrArgument == validateField.arguments.end();
			const bool hasValue = !missing && itrArgument->second.value;

			if (hasValue)
			{
				const bool compatible = validateInputValue(definition.nonNullDefaultValue,
					itrArgument->second,
					definition.type);

				if (!compatible)
				{
					// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
					std::ostringstream message;

					message << "Incompatible argument type: " << _scopedType->get().name()
							<< " field: " << name << " name: " << argumentName;

					_errors.push_back({ message.str(), argumentLocations[argumentName] });
				}
			}
			else if (!definition.defaultValue && definition.type
				&& definition.type->get().kind() == introspection::TypeKind::NON_NULL)
			{
'''))
R("field-alias", ('''	if (alias.empty())
	{
		alias = name;
	}
''', '''	alias = alias.empty() ? name : alias;
'''))
R("spread-nested", ('''	if (_fragmentStack.find(name) != _fragmentStack.end())
	{
		if (_fragmentCycles.emplace(name).second)
		{
			// http://spec.graphql.org/June2018/#sec-Fragment-spreads-must-not-form-cycles
			auto position = fragmentSpread.begin();
			std::ostringstream message;

			message << "Cyclic fragment spread name: " << name;

			_errors.push_back({ message.str(), { position.line, position.column } });
		}

		return;
	}

	const auto& selection = *itr->second.get().children.back();
	const auto& typeCondition = itr->second.get().children[1];
''', '''	const bool cyclic = _fragmentStack.find(name) != _fragmentStack.end();

	if (cyclic && _fragmentCycles.emplace(name).second)
	{
		// http://spec.graphql.org/June2018/#sec-Fragment-spreads-must-not-form-cycles
		auto position = fragmentSpread.begin();
		std::ostringstream message;

		message << "Cyclic fragment spread name: " << name;

		_errors.push_back({ message.str(), { position.line, position.column } });
	}

	if (cyclic)
	{
		return;
	}

	const auto& definition = itr->second.get();
	const auto& selection = *definition.children.back();
	const auto& typeCondition = definition.children[1];
'''), ('''	auto outerType = std::move(_scopedType);

	_fragmentStack.emplace(name);
	_scopedType = itrInner->second;

	visitSelection(selection);

	_scopedType = std::move(outerType);
	_fragmentStack.erase(name);

	_referencedFragments.emplace(name);
''', '''	_referencedFragments.emplace(name);
	_fragmentStack.emplace(name);

	auto outerType = _scopedType;

	_scopedType = itrInner->second;
	visitSelection(selection);
	_scopedType = outerType;

	_fragmentStack.erase(name);
'''))
R("inline-optional", ('''	ValidateType fragmentType;

	if (innerType.empty())
	{
		fragmentType = _scopedType;
	}
	else
	{
		auto itrInner = _types.find(innerType);
''', '''	auto fragmentType = _scopedType;

	if (!innerType.empty())
	{
		const auto itrInner = _types.find(innerType);
'''))
R("inline-scalarflag", ('''		if (isScalarType(fragmentType->get().kind()) || !matchesScopedType(innerType))
		{
			// http://spec.graphql.org/June2018/#sec-Fragments-On-Composite-Types
			// http://spec.graphql.org/June2018/#sec-Fragment-spread-is-possible
			std::ostringstream message;

			message << (isScalarType(fragmentType->get().kind())
''', '''		const bool scalarTarget = isScalarType(fragmentType->get().kind());

		if (scalarTarget || !matchesScopedType(innerType))
		{
			// http://spec.graphql.org/June2018/#sec-Fragments-On-Composite-Types
			// http://spec.graphql.org/June2018/#sec-Fragment-spread-is-possible
			std::ostringstream message;

			message << (scalarTarget
'''))
R("directive-nested", ('''		if (!uniqueDirectives.emplace(directiveName).second)
		{
			// http://spec.graphql.org/June2018/#sec-Directives-Are-Unique-Per-Location
			auto position = directive->begin();
''', '''		const bool repeated = uniqueDirectives.find(directiveName) != uniqueDirectives.end();

		uniqueDirectives.emplace(directiveName);

		if (repeated)
		{
			// http://spec.graphql.org/June2018/#sec-Directives-Are-Unique-Per-Location
			auto position = directive->begin();
'''))
R("directive-args-helper", (H, '''	bool validateInputValue(''', '''	void readArguments(const peg::ast_node& parent, std::string_view directiveName,
		ValidateFieldArguments& values, internal::string_view_map<schema_location>& locations,
		std::list<std::string_view>& names);
	bool validateInputValue('''), ('''		peg::on_first_child<peg::arguments>(*directive,
			[this, &directiveName, &validateArguments, &argumentLocations, &argumentNames](
				const peg::ast_node& child) {
				for (auto& argument : child.children)
				{
					auto position = argument->begin();
					auto argumentName = argument->children.front()->string_view();

					if (validateArguments.find(argumentName) != validateArguments.end())
					{
						// http://spec.graphql.org/June2018/#sec-Argument-Uniqueness
						std::ostringstream message;

						message << "Conflicting argument directive: " << directiveName
								<< " name: " << argumentName;

						_errors.push_back({ message.str(), { position.line, position.column } });
						continue;
					}

					ValidateArgumentValueVisitor visitor(_errors);

					visitor.visit(*argument->children.back());
					validateArguments[argumentName] = visitor.getArgumentValue();
					argumentLocations[argumentName] = { position.line, position.column };
					argumentNames.push_back(argumentName);
				}
			});
''', '''		readArguments(*directive, directiveName, validateArguments, argumentLocations, argumentNames);
'''), ('''void ValidateExecutableVisitor::visitDirectives(
''', '''void ValidateExecutableVisitor::readArguments(const peg::ast_node& parent,
	std::string_view directiveName, ValidateFieldArguments& values,
	internal::string_view_map<schema_location>& locations, std::list<std::string_view>& names)
{
	peg::on_first_child<peg::arguments>(parent,
		[this, directiveName, &values, &locations, &names](const peg::ast_node& child) {
			for (const auto& argument : child.children)
			{
				const auto argumentName = argument->children.front()->string_view();
				const auto position = argument->begin();

				if (values.find(argumentName) == values.end())
				{
					ValidateArgumentValueVisitor visitor(_errors);

					visitor.visit(*argument->children.back());
					names.push_back(argumentName);
					locations[argumentName] = { position.line, position.column };
					values[argumentName] = visitor.getArgumentValue();
				}
				else
				{
					// http://spec.graphql.org/June2018/#sec-Argument-Uniqueness
					std::ostringstream message;

					message << "Conflicting argument directive: " << directiveName
							<< " name: " << argumentName;

					_errors.push_back({ message.str(), { position.line, position.column } });
				}
			}
		});
}

void ValidateExecutableVisitor::visitDirectives(
'''))
R("location-helper", (H, '''	bool validateInputValue(''', '''	void addError(std::string message, const peg::ast_node& node);
	bool validateInputValue('''), ('''bool ValidateExecutableVisitor::validateInputValue(
''', '''void ValidateExecutableVisitor::addError(std::string message, const peg::ast_node& node)
{
	const auto position = node.begin();

	_errors.push_back({ std::move(message), { position.line, position.column } });
}

bool ValidateExecutableVisitor::validateInputValue(
'''), ('''		auto position = fragmentSpread.begin();
		std::ostringstream message;

		message << "Undefined fragment spread name: " << name;

		_errors.push_back({ message.str(), { position.line, position.column } });
		return;
''', '''		std::ostringstream message;

		message << "Undefined fragment spread name: " << name;

		addError(message.str(), fragmentSpread);
		return;
'''), ('''			auto position = fragmentSpread.begin();
			std::ostringstream message;

			message << "Cyclic fragment spread name: " << name;

			_errors.push_back({ message.str(), { position.line, position.column } });
''', '''			std::ostringstream message;

			message << "Cyclic fragment spread name: " << name;

			addError(message.str(), fragmentSpread);
'''), ('''			auto position = directive->begin();
			std::ostringstream message;

			message << "Undefined directive name: " << directiveName;

			_errors.push_back({ message.str(), { position.line, position.column } });
			continue;
''', '''			std::ostringstream message;

			message << "Undefined directive name: " << directiveName;

			addError(message.str(), *directive);
			continue;
'''))
