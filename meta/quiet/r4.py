"""Refactorings of the client library, the client generator, the request loader, the syntax tree and the grammar."""
C = "src/GraphQLClient.cpp"; CH = "include/graphqlservice/GraphQLClient.h"; G = "src/ClientGenerator.cpp"; L = "src/RequestLoader.cpp"; ST = "src/SyntaxTree.cpp"; GR = "include/graphqlservice/internal/Grammar.h"
REFS = []
def R(id, file, *edits, count=1, comp=None, **k):
    REFS.append(dict(id=id, count=count, compile=comp if comp is not None else (file if file != G else ""), edits=[(e if len(e) == 3 else (file,) + e) for e in edits], **k))

# the client library
R("cl-segment-if", C, ('''	ErrorPathSegment result { response::IntType {} };

	switch (segment.type())
	{
		case response::Type::Int:
			result = segment.get<response::IntType>();
			break;

		case response::Type::String:
			result = segment.release<response::StringType>();
			break;

		default:
			break;
	}

	return result;
''', '''	if (segment.type() == response::Type::String)
	{
		return ErrorPathSegment { segment.release<response::StringType>() };
	}

	if (segment.type() != response::Type::Int)
	{
		return ErrorPathSegment { response::IntType {} };
	}

	return ErrorPathSegment { segment.get<response::IntType>() };
'''))
R("cl-location-helper", C, ('''ErrorLocation parseServiceErrorLocation(response::Value&& location)
{''', '''namespace {

void parseCoordinate(const response::Value& value, response::IntType& coordinate)
{
	if (value.type() != response::Type::Int)
	{
		return;
	}

	coordinate = value.get<response::IntType>();
}

} // namespace

ErrorLocation parseServiceErrorLocation(response::Value&& location)
{'''), ('''				if (member.second.type() == response::Type::Int)
				{
					result.line = static_cast<size_t>(member.second.get<response::IntType>());
				}

				continue;
			}

			if (member.first == "column"sv)
			{
				if (member.second.type() == response::Type::Int)
				{
					result.column = static_cast<size_t>(member.second.get<response::IntType>());
				}

				continue;
			}
''', '''				parseCoordinate(member.second, result.line);
			}
			else if (member.first == "column"sv)
			{
				parseCoordinate(member.second, result.column);
			}
'''))
R("cl-early-return", C, ('''	ServiceResponse result;

	if (response.type() == response::Type::Map)
	{
		auto members = response.release<response::MapType>();

		for (auto& member : members)
		{
			if (member.first == "data"sv)
			{
				// The generated client code can parse this.
				result.data = std::move(member.second);
				continue;
			}

			if (member.first == "errors"sv)
			{
				if (member.second.type() == response::Type::List)
				{
					auto errors = member.second.release<response::ListType>();

					result.errors.reserve(errors.size());
					std::transform(errors.begin(),
						errors.end(),
						std::back_inserter(result.errors),
						[](response::Value& error) {
							return parseServiceError(std::move(error));
						});
				}

				continue;
			}
		}
	}

	return result;
''', '''	ServiceResponse result;

	if (response.type() != response::Type::Map)
	{
		return result;
	}

	for (auto& [name, value] : response.release<response::MapType>())
	{
		if (name == "errors"sv)
		{
			if (value.type() != response::Type::List)
			{
				continue;
			}

			for (auto& error : value.release<response::ListType>())
			{
				result.errors.push_back(parseServiceError(std::move(error)));
			}
		}
		else if (name == "data"sv)
		{
			result.data = std::move(value);
		}
	}

	return result;
'''))
R("cl-modifiers", CH, ('''		response::Value result;

		if (nullableValue)
		{
			result = serialize<Other...>(std::move(*nullableValue));
			nullableValue = std::nullopt;
		}

		return result;
''', '''		if (!nullableValue.has_value())
		{
			return {};
		}

		auto result = serialize<Other...>(std::move(nullableValue.value()));

		nullableValue.reset();

		return result;
'''), ('''			result.reserve(listValue.size());
			std::transform(listValue.begin(),
				listValue.end(),
				std::back_inserter(result),
				[](response::Value& value) {
					return parse<Other...>(std::move(value));
				});
''', '''			result.reserve(listValue.size());

			for (auto& element : listValue)
			{
				result.push_back(parse<Other...>(std::move(element)));
			}
'''), comp=C)
R("cl-parse-positive", C, ('''	if (value.type() != response::Type::Float && value.type() != response::Type::Int)
	{
		throw std::logic_error { "not a float" };
	}

	return value.get<response::FloatType>();
''', '''	switch (value.type())
	{
		case response::Type::Int:
		case response::Type::Float:
			return value.get<response::FloatType>();

		default:
			throw std::logic_error { "not a float" };
	}
'''), ('''	if (value.type() != response::Type::Boolean)
	{
		throw std::logic_error { "not a boolean" };
	}

	return value.get<response::BooleanType>();
''', '''	const bool isBoolean = value.type() == response::Type::Boolean;

	if (isBoolean)
	{
		return value.get<response::BooleanType>();
	}

	throw std::logic_error { "not a boolean" };
'''))

# the client generator
R("cg-entry-helper", G, ('''bool Generator::outputModifiedResponseImplementation(std::ostream& sourceFile,
	const std::string& outerScope, const ResponseField& responseField) const noexcept
{
''', '''namespace {

void outputFieldEntry(std::ostream& sourceFile, const ResponseField& field, const std::string& type,
	const std::string& modifiers)
{
	sourceFile << "\\t\\t\\tif (member.first == R\\"js(" << field.name << ")js\\"sv)\\n\\t\\t\\t{\\n";
	sourceFile << "\\t\\t\\t\\tresult." << field.cppName << " = ModifiedResponse<" << type << ">::parse"
			   << modifiers << "(std::move(member.second));\\n";
	sourceFile << "\\t\\t\\t\\tcontinue;\\n\\t\\t\\t}\\n";
}

} // namespace

bool Generator::outputModifiedResponseImplementation(std::ostream& sourceFile,
	const std::string& outerScope, const ResponseField& responseField) const noexcept
{
'''), ('''					sourceFile << R"cpp(			if (member.first == R"js()cpp" << field.name
							   << R"cpp()js"sv)
			{
				result.)cpp" << field.cppName
							   << R"cpp( = ModifiedResponse<)cpp"
							   << getResponseFieldCppType(field, cppType) << R"cpp(>::parse)cpp"
							   << getTypeModifierList(field.modifiers)
							   << R"cpp((std::move(member.second));
				continue;
			}
)cpp";
''', '''					outputFieldEntry(sourceFile,
						field,
						getResponseFieldCppType(field, cppType),
						getTypeModifierList(field.modifiers));
'''))
R("cg-else-if", G, ('''				continue;
			}
)cpp";
		}
	}

	sourceFile << R"cpp(		}
	}
''', '''			}
)cpp";
		}
	}

	sourceFile << R"cpp(		}
	}
'''))
R("cg-modifiers", G, ('''	if (modifiers.empty())
	{
		return {};
	}

	bool firstModifier = true;
	std::ostringstream oss;

	oss << '<';

	for (auto modifier : modifiers)
	{
		if (!firstModifier)
		{
			oss << R"cpp(, )cpp";
		}

		firstModifier = false;

		switch (modifier)
		{
			case service::TypeModifier::None:
				oss << R"cpp(TypeModifier::None)cpp";
				break;

			case service::TypeModifier::Nullable:
				oss << R"cpp(TypeModifier::Nullable)cpp";
				break;

			case service::TypeModifier::List:
				oss << R"cpp(TypeModifier::List)cpp";
				break;
		}
	}

	oss << '>';

	return oss.str();
''', '''	std::string list;

	for (const auto modifier : modifiers)
	{
		list += list.empty() ? "<TypeModifier::" : ", TypeModifier::";

		if (modifier == service::TypeModifier::List)
		{
			list += "List";
		}
		else if (modifier == service::TypeModifier::Nullable)
		{
			list += "Nullable";
		}
		else
		{
			list += "None";
		}
	}

	if (!list.empty())
	{
		list += '>';
	}

	return list;
'''))
R("cg-generated-enum", G, ('''	const auto itr = std::find(s_names)cpp"
				   << cppType << R"cpp(.cbegin(), s_names)cpp" << cppType
				   << R"cpp(.cend(), value.release<response::StringType>());
''', '''	const auto name = value.release<response::StringType>();
	const auto itr = std::find(s_names)cpp"
				   << cppType << R"cpp(.cbegin(), s_names)cpp" << cppType
				   << R"cpp(.cend(), name);
'''), ('''	if (itr == s_names)cpp"
				   << cppType << R"cpp(.cend())
	{
		throw std::logic_error { "not a valid )cpp"
				   << cppType << R"cpp( value" };
	}

	return static_cast<)cpp"
				   << cppType << R"cpp(>(itr - s_names)cpp" << cppType << R"cpp(.cbegin());
}
''', '''	if (itr != s_names)cpp"
				   << cppType << R"cpp(.cend())
	{
		return static_cast<)cpp"
				   << cppType << R"cpp(>(itr - s_names)cpp" << cppType << R"cpp(.cbegin());
	}

	throw std::logic_error { "not a valid )cpp"
				   << cppType << R"cpp( value" };
}
'''))
R("cg-generated-for", G, ('''Response parseResponse(response::Value&& response)
{
	Response result;

	if (response.type() == response::Type::Map)
	{
		auto members = response.release<response::MapType>();

		for (auto& member : members)
		{
''', '''Response parseResponse(response::Value&& document)
{
	Response result;

	if (document.type() == response::Type::Map)
	{
		auto entries = document.release<response::MapType>();

		for (auto& member : entries)
		{
'''))

# the request loader
R("rl-validate", L, ('''	auto errors = validation.getStructuredErrors();

	if (!errors.empty())
	{
		throw service::schema_exception { std::move(errors) };
	}
''', '''	if (auto errors = validation.getStructuredErrors(); errors.size() > 0)
	{
		throw service::schema_exception { std::move(errors) };
	}
'''))
R("rl-find", L, ('''			if (_requestOptions.operationName.empty() || name == _requestOptions.operationName)
			{
				_operationName = name;
				_operationType = operationType;
				_operation = &operationDefinition;
				return true;
			}

			return false;
''', '''			const bool selected =
				_requestOptions.operationName.empty() || name == _requestOptions.operationName;

			if (!selected)
			{
				return false;
			}

			_operation = &operationDefinition;
			_operationType = operationType;
			_operationName = name;

			return true;
'''), ('''	if (!_operation)
	{
		std::ostringstream message;
''', '''	if (_operation == nullptr)
	{
		std::ostringstream message;
'''))
R("rl-root", L, ('''	if (_operationType == service::strQuery)
	{
		_responseType.type = _schema->queryType();
	}
	else if (_operationType == service::strMutation)
	{
		_responseType.type = _schema->mutationType();
	}
	else if (_operationType == service::strSubscription)
	{
		_responseType.type = _schema->subscriptionType();
	}
''', '''	_responseType.type = [this]() -> RequestSchemaType {
		if (_operationType == service::strSubscription)
		{
			return _schema->subscriptionType();
		}

		if (_operationType == service::strMutation)
		{
			return _schema->mutationType();
		}

		return _operationType == service::strQuery ? _schema->queryType() : nullptr;
	}();
'''))
R("rl-variables", L, ('''				if (child->is_type<peg::variable_name>())
				{
					// Skip the $ prefix
					variable.name = child->string_view().substr(1);
					variable.cppName = _schemaLoader.getSafeCppName(variable.name);
				}
''', '''				if (child->is_type<peg::variable_name>())
				{
					// Skip the $ prefix
					auto variableName = child->string_view();

					variableName.remove_prefix(1);
					variable.name = variableName;
					variable.cppName = SchemaLoader::getSafeCppName(variableName);
				}
'''))

# the syntax tree
R("st-table", ST, ('''			const char ch = n->string_view().front();

			switch (ch)
			{
				case '"':
					n->unescaped_view("\\""sv);
					return;

				case '\\\\':
					n->unescaped_view("\\\\"sv);
					return;

				case '/':
					n->unescaped_view("/"sv);
					return;

				case 'b':
					n->unescaped_view("\\b"sv);
					return;
''', '''			const char ch = n->string_view().front();

			if (ch == '"' || ch == '\\\\' || ch == '/')
			{
				n->unescaped_view(n->string_view().substr(0, 1));
				return;
			}

			switch (ch)
			{
				case 'b':
					n->unescaped_view("\\b"sv);
					return;
'''))
R("st-if-chain", ST, ('''				case 'n':
					n->unescaped_view("\\n"sv);
					return;

				case 'r':
					n->unescaped_view("\\r"sv);
					return;

				case 't':
					n->unescaped_view("\\t"sv);
					return;

				default:
					break;
			}
		}
''', '''				case 'r':
					n->unescaped_view("\\r"sv);
					return;

				case 't':
					n->unescaped_view("\\t"sv);
					return;

				default:
					break;
			}

			if (ch == 'n')
			{
				return n->unescaped_view("\\n"sv);
			}
		}
'''))
R("st-join", ST, ('''			joined.reserve(std::accumulate(children.cbegin(),
				children.cend(),
				size_t(0),
				[](size_t total, const std::unique_ptr<ast_node>& child) {
					return total + child->unescaped_view().size();
				}));

			for (const auto& child : children)
			{
				joined.append(child->unescaped_view());
			}
''', '''			std::for_each(children.cbegin(),
				children.cend(),
				[&joined](const std::unique_ptr<ast_node>& child) {
					joined += child->unescaped_view();
				});
'''), ('#include <functional>\n', '#include <algorithm>\n#include <functional>\n'))
R("st-unescape-early", ST, ('''	if (!_unescaped)
	{
		if (children.size() > 1)
		{
			std::string joined;
''', '''	if (_unescaped == nullptr)
	{
		const size_t count = children.size();

		if (count >= 2)
		{
			std::string joined;
'''))

# the grammar
R("gr-name-parts", GR, ('''struct list_value_content
	: seq<star<ignored>, opt<list<list_entry, star<ignored>>>, star<ignored>, must<one<']'>>>
{
};
''', '''struct list_entries : list<list_entry, star<ignored>>
{
};

struct list_value_content
	: seq<star<ignored>, opt<list_entries>, star<ignored>, must<one<']'>>>
{
};
'''), comp=ST)
R("gr-float-factored", GR, ('''	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>,
		  not_at<number_lookahead>>
''', '''	: seq<integer_part,
		  sor<seq<fractional_part, exponent_part>, fractional_part, exponent_part>,
		  not_at<number_lookahead>>
'''), comp=ST)
R("gr-ignored-run", GR, ('''struct argument_content : seq<star<ignored>, one<':'>, star<ignored>, input_value>
{
};
''', '''struct optional_ignored : star<ignored>
{
};

struct argument_content : seq<optional_ignored, one<':'>, optional_ignored, input_value>
{
};
'''), ('''	: seq<star<ignored>, list<argument, star<ignored>>, star<ignored>, must<one<')'>>>
''', '''	: seq<optional_ignored, argument, star<optional_ignored, argument>, optional_ignored,
		  must<one<')'>>>
'''), comp=ST)
R("gr-integer-cases", GR, ('''struct integer_part : seq<opt<negative_sign>, sor<zero_digit, seq<nonzero_digit, star<digit>>>>
''', '''struct integer_part
	: sor<seq<negative_sign, sor<seq<nonzero_digit, star<digit>>, zero_digit>>, zero_digit,
		  seq<nonzero_digit, star<digit>>>
'''), comp=ST)
R("gr-each-child", GR, ('''		if (child->is_type<Rule>())
		{
			func(*child);
			return;
		}
''', '''		if (!child->is_type<Rule>())
		{
			continue;
		}

		func(*child);
		break;
'''), comp=ST)
