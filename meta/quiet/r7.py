"""Behaviour-preserving edits of the schema loader."""
L = "src/SchemaLoader.cpp"
REFS = []


def R(id, *edits, file=L, **kw):
    REFS.append(dict(id=id, edits=[e if len(e) == 3 else (file,) + e for e in edits], compile="src/SchemaLoader.cpp", **kw))


R("ld-builtin-count", ('''		if (s_builtinTypes.find(entry.first) != s_builtinTypes.cend())
		{
			std::ostringstream error;
''', '''		if (s_builtinTypes.count(entry.first) > 0)
		{
			std::ostringstream error;
'''))
R("ld-nested-if", ('''		if (s_builtinTypes.find(entry.type) != s_builtinTypes.cend())
		{
			continue;
		}

		auto itr = _schemaTypes.find(entry.type);

		if (itr == _schemaTypes.cend())
		{
			std::ostringstream error;

			error << "Unknown argument type: "''', '''		const bool builtin = s_builtinTypes.find(entry.type) != s_builtinTypes.cend();

		if (builtin)
		{
			continue;
		}

		const auto itr = _schemaTypes.find(entry.type);

		if (itr == _schemaTypes.end())
		{
			std::ostringstream error;

			error << "Unknown argument type: "'''))
R("ld-kind-if", ('''		switch (itr->second)
		{
			case SchemaType::Scalar:
				entry.fieldType = InputFieldType::Scalar;
				break;

			case SchemaType::Enum:
				entry.fieldType = InputFieldType::Enum;
				break;

			case SchemaType::Input:
				entry.fieldType = InputFieldType::Input;
				break;

			default:
			{
				std::ostringstream error;

				error << "Invalid argument type: " << entry.type;

				if (entry.position)
				{
					error << " line: " << entry.position->line
						  << " column: " << entry.position->column;
				}

				throw std::runtime_error(error.str());
			}
		}
''', '''		const SchemaType kind = itr->second;

		if (kind == SchemaType::Scalar)
		{
			entry.fieldType = InputFieldType::Scalar;
		}
		else if (kind == SchemaType::Enum)
		{
			entry.fieldType = InputFieldType::Enum;
		}
		else if (kind == SchemaType::Input)
		{
			entry.fieldType = InputFieldType::Input;
		}
		else
		{
			std::ostringstream error;

			error << "Invalid argument type: " << entry.type;

			if (entry.position)
			{
				error << " line: " << entry.position->line
					  << " column: " << entry.position->column;
			}

			throw std::runtime_error(error.str());
		}
'''))
R("ld-raise-helper", ('''void SchemaLoader::fixupInputFieldList(InputFieldList& fields)
{
''', '''[[noreturn]] static void refuse(const char* what, const InputField& entry)
{
	std::ostringstream error;

	error << what << entry.type;

	if (entry.position)
	{
		error << " line: " << entry.position->line << " column: " << entry.position->column;
	}

	throw std::runtime_error(error.str());
}

void SchemaLoader::fixupInputFieldList(InputFieldList& fields)
{
'''), ('''			std::ostringstream error;

			error << "Unknown argument type: " << entry.type;

			if (entry.position)
			{
				error << " line: " << entry.position->line << " column: " << entry.position->column;
			}

			throw std::runtime_error(error.str());
''', '''			refuse("Unknown argument type: ", entry);
'''))
R("ld-index-loop", ('''	for (auto& entry : _inputTypes)
	{
		fixupInputFieldList(entry.fields);
	}
''', '''	for (size_t i = 0; i < _inputTypes.size(); ++i)
	{
		fixupInputFieldList(_inputTypes[i].fields);
	}
'''), ('''	for (auto& entry : _interfaceTypes)
	{
		fixupOutputFieldList(entry.fields, std::nullopt, std::nullopt);
	}
''', '''	std::for_each(_interfaceTypes.begin(), _interfaceTypes.end(), [this](InterfaceType& entry) {
		fixupOutputFieldList(entry.fields, std::nullopt, std::nullopt);
	});
'''))
R("ld-query-any", ('''
				queryDefined = queryDefined || (operation.operation == service::strQuery);
			}
''', '''			}

			queryDefined = std::any_of(_operationTypes.cbegin(),
				_operationTypes.cend(),
				[](const OperationType& operation) noexcept {
					return operation.operation == service::strQuery;
				});
'''))
R("ld-query-if", ('''
				queryDefined = queryDefined || (operation.operation == service::strQuery);
''', '''
				if (operation.operation == service::strQuery)
				{
					queryDefined = true;
				}
'''), ('''	if (!_isIntrospection)
	{
		bool queryDefined = false;
''', '''	const bool custom = !_isIntrospection;

	if (custom)
	{
		bool queryDefined = false;
'''))
R("ld-operations-helper", ('''void SchemaLoader::validateSchema()
{
''', '''static void checkOperation(const OperationType& operation, bool known)
{
	if (known)
	{
		return;
	}

	std::ostringstream error;

	error << "Unknown operation type: " << operation.type
		  << " operation: " << operation.operation;

	throw std::runtime_error(error.str());
}

void SchemaLoader::validateSchema()
{
'''), ('''				if (_objectNames.find(operation.type) == _objectNames.cend())
				{
					std::ostringstream error;

					error << "Unknown operation type: " << operation.type
						  << " operation: " << operation.operation;

					throw std::runtime_error(error.str());
				}
''', '''				checkOperation(operation, _objectNames.find(operation.type) != _objectNames.cend());
'''))
R("ld-union-found", ('''			if (itr == _objectNames.cend())
			{
				std::ostringstream error;
				auto itrPosition = _typePositions.find(entry.type);

				error << "Unknown type: " << objectName << " included by: " << entry.type;

				if (itrPosition != _typePositions.cend())
				{
					error << " line: " << itrPosition->second.line
						  << " column: " << itrPosition->second.column;
				}

				throw std::runtime_error(error.str());
			}

			_objectTypes[itr->second].unions.push_back(entry.type);
''', '''			if (itr != _objectNames.cend())
			{
				_objectTypes[itr->second].unions.push_back(entry.type);
				continue;
			}

			std::ostringstream error;
			auto itrPosition = _typePositions.find(entry.type);

			error << "Unknown type: " << objectName << " included by: " << entry.type;

			if (itrPosition != _typePositions.cend())
			{
				error << " line: " << itrPosition->second.line
					  << " column: " << itrPosition->second.column;
			}

			throw std::runtime_error(error.str());
'''))
R("ld-interface-merge", ('''			if (itr != _interfaceNames.cend())
			{
				for (const auto& field : _interfaceTypes[itr->second].fields)
				{
					interfaceFields->insert(field.name);
				}
			}
''', '''			if (itr == _interfaceNames.cend())
			{
				continue;
			}

			const auto& interfaceType = _interfaceTypes[itr->second];

			std::transform(interfaceType.fields.cbegin(),
				interfaceType.fields.cend(),
				std::inserter(*interfaceFields, interfaceFields->end()),
				[](const OutputField& field) noexcept {
					return field.name;
				});
'''))
R("ld-default-null", ('''		if (!field.defaultValueString.empty() && field.defaultValue.type() == response::Type::Null
			&& (field.modifiers.empty()
				|| field.modifiers.front() != service::TypeModifier::Nullable))
		{
''', '''		const bool nullable = !field.modifiers.empty()
			&& field.modifiers.front() == service::TypeModifier::Nullable;

		if (!nullable && !field.defaultValueString.empty()
			&& field.defaultValue.type() == response::Type::Null)
		{
'''))
R("ld-partition", ('''	for (const auto& child : _ast.root->children)
	{
		if (!isExtension(*child))
		{
			visitDefinition(*child);
		}
	}

	for (const auto& child : _ast.root->children)
	{
		if (isExtension(*child))
		{
			visitDefinition(*child);
		}
	}
''', '''	for (const bool extensions : { false, true })
	{
		for (const auto& child : _ast.root->children)
		{
			if (isExtension(*child) == extensions)
			{
				visitDefinition(*child);
			}
		}
	}
'''))
R("ld-extension-later", ('''	for (const auto& child : _ast.root->children)
	{
		if (!isExtension(*child))
		{
			visitDefinition(*child);
		}
	}

	for (const auto& child : _ast.root->children)
	{
		if (isExtension(*child))
		{
			visitDefinition(*child);
		}
	}
''', '''	std::vector<const peg::ast_node*> extensions;

	for (const auto& child : _ast.root->children)
	{
		if (isExtension(*child))
		{
			extensions.push_back(child.get());
		}
		else
		{
			visitDefinition(*child);
		}
	}

	for (const auto* extension : extensions)
	{
		visitDefinition(*extension);
	}
'''))
