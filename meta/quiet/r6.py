"""Refactorings of the type system and introspection."""
S = "src/Schema.cpp"; I = "src/Introspection.cpp"
REFS = []
def R(id, file, *edits, count=1, **k):
    REFS.append(dict(id=id, count=count, compile=file, edits=[(e if len(e) == 3 else (file,) + e) for e in edits], **k))

R("sc-lookup", S, ('''	auto itr = _typeMap.find(name);

	if (itr == _typeMap.end())
	{
		std::ostringstream message;

		message << "Type not found";

		if (!name.empty())
		{
			message << " name: " << name;
		}

		throw service::schema_exception { { message.str() } };
	}

	return _types[itr->second].second;
''', '''	if (const auto itr = _typeMap.find(name); itr != _typeMap.end())
	{
		const auto& [typeName, type] = _types[itr->second];

		return type;
	}

	std::string message { "Type not found" };

	if (!name.empty())
	{
		message.append(" name: ").append(name);
	}

	throw service::schema_exception { { std::move(message) } };
'''))
R("sc-wrap", S, ('''	auto& wrappers = (kind == introspection::TypeKind::LIST) ? _listWrappers : _nonNullWrappers;
	auto& mutex =
		(kind == introspection::TypeKind::LIST) ? _listWrappersMutex : _nonNullWrappersMutex;
	std::shared_lock shared_lock { mutex };
''', '''	const bool isList = kind == introspection::TypeKind::LIST;
	auto& wrappers = isList ? _listWrappers : _nonNullWrappers;
	auto& mutex = isList ? _listWrappersMutex : _nonNullWrappersMutex;
	std::shared_lock shared_lock { mutex };
'''), ('''		std::tie(itr, std::ignore) = wrappers.emplace(ofType, WrapperType::Make(kind, ofType));
''', '''		itr = wrappers.emplace(ofType, WrapperType::Make(kind, ofType)).first;
'''))
R("sc-wrap-scope", S, ('''	std::shared_lock shared_lock { mutex };
	std::unique_lock unique_lock { mutex, std::defer_lock };
	auto itr = wrappers.find(ofType);

	if (itr == wrappers.end())
	{
		// Trade the shared_lock for a unique_lock.
		shared_lock.unlock();
		unique_lock.lock();

		std::tie(itr, std::ignore) = wrappers.emplace(ofType, WrapperType::Make(kind, ofType));
	}

	return itr->second;
''', '''	{
		const std::shared_lock reading { mutex };

		if (const auto found = wrappers.find(ofType); found != wrappers.end())
		{
			return found->second;
		}
	}

	auto wrapper = WrapperType::Make(kind, ofType);
	const std::unique_lock writing { mutex };

	return wrappers.emplace(std::move(ofType), std::move(wrapper)).first->second;
'''))
R("sc-add", S, ('''	_typeMap[name] = _types.size();
	_types.push_back({ name, type });
''', '''	const size_t index = _types.size();

	_types.emplace_back(name, std::move(type));
	_typeMap[name] = index;
'''), ('''	_directives.emplace_back(std::move(directive));
''', '''	_directives.push_back(directive);
'''), ('''	_query = query;
''', '''	_query = std::move(query);
'''))
R("sc-interfaces", S, ('''	for (const auto& interface : _interfaces)
	{
		std::const_pointer_cast<InterfaceType>(interface)->AddPossibleType(
			std::static_pointer_cast<ObjectType>(shared_from_this()));
	}
''', '''	const auto self = std::static_pointer_cast<ObjectType>(shared_from_this());

	std::for_each(_interfaces.cbegin(),
		_interfaces.cend(),
		[&self](const std::shared_ptr<const InterfaceType>& interfaceType) {
			std::const_pointer_cast<InterfaceType>(interfaceType)->AddPossibleType(self);
		});
'''))
R("in-kind-if", I, ('''	switch (_type->kind())
	{
		case introspection::TypeKind::OBJECT:
		case introspection::TypeKind::INTERFACE:
			break;

		default:
			return std::nullopt;
	}

	const auto& fields = _type->fields();
	const bool deprecated = includeDeprecatedArg && *includeDeprecatedArg;
	auto result = std::make_optional<std::vector<std::shared_ptr<object::Field>>>();

	result->reserve(fields.size());
	for (const auto& field : fields)
	{
		if (deprecated || !field->deprecationReason())
		{
			result->push_back(std::make_shared<Field>(field));
		}
	}

	return result;
''', '''	const auto kind = _type->kind();

	if (kind != introspection::TypeKind::OBJECT && kind != introspection::TypeKind::INTERFACE)
	{
		return std::nullopt;
	}

	const bool deprecated = includeDeprecatedArg.value_or(false);
	std::vector<std::shared_ptr<object::Field>> result;

	for (const auto& field : _type->fields())
	{
		if (!deprecated && field->deprecationReason().has_value())
		{
			continue;
		}

		result.push_back(std::make_shared<Field>(field));
	}

	return std::make_optional(std::move(result));
'''))
R("in-loop", I, ('''	const auto& interfaces = _type->interfaces();
	auto result = std::make_optional<std::vector<std::shared_ptr<object::Type>>>(interfaces.size());

	std::transform(interfaces.begin(), interfaces.end(), result->begin(), [](const auto& entry) {
		return std::make_shared<Type>(entry);
	});

	return result;
''', '''	const auto& interfaces = _type->interfaces();
	std::vector<std::shared_ptr<object::Type>> result;

	result.reserve(interfaces.size());
	for (const auto& entry : interfaces)
	{
		result.emplace_back(std::make_shared<Type>(entry));
	}

	return std::make_optional(std::move(result));
'''), ('''	const auto ofType = _type->ofType().lock();

	return ofType ? std::make_shared<Type>(ofType) : nullptr;
''', '''	if (const auto ofType = _type->ofType().lock())
	{
		return std::make_shared<Type>(ofType);
	}

	return nullptr;
'''))
R("in-helper", I, ('''Type::Type(const std::shared_ptr<const schema::BaseType>& type)
	: _type(type)
{
}
''', '''namespace {

std::optional<response::StringType> optionalText(std::string_view text)
{
	if (text.empty())
	{
		return std::nullopt;
	}

	return std::make_optional<response::StringType>(text);
}

} // namespace

Type::Type(const std::shared_ptr<const schema::BaseType>& type)
	: _type(type)
{
}
'''), ('''	const auto name = _type->name();

	return { name.empty() ? std::nullopt : std::make_optional<response::StringType>(name) };
''', '''	return optionalText(_type->name());
'''), ('''	const auto description = _type->description();

	return { description.empty() ? std::nullopt
								 : std::make_optional<response::StringType>(description) };
''', '''	return optionalText(_type->description());
'''), ('''	const auto defaultValue = _inputValue->defaultValue();

	return { defaultValue.empty() ? std::nullopt
								  : std::make_optional<response::StringType>(defaultValue) };
''', '''	return optionalText(_inputValue->defaultValue());
'''))
R("in-reason", I, ('''	const auto& deprecationReason = _field->deprecationReason();

	return { deprecationReason ? std::make_optional<response::StringType>(*deprecationReason)
							   : std::nullopt };
''', '''	const auto& deprecationReason = _field->deprecationReason();

	if (!deprecationReason.has_value())
	{
		return std::nullopt;
	}

	return std::make_optional<response::StringType>(deprecationReason.value());
'''), ('''	return _enumValue->deprecationReason().has_value();
''', '''	return _enumValue->deprecationReason() != std::nullopt;
'''), ('''	return response::StringType { _field->name() };
''', '''	const auto name = _field->name();

	return response::StringType { name.data(), name.size() };
'''))
