"""Refactorings of the response values, JSON and the sorted containers."""
P = "src/GraphQLResponse.cpp"; J = "src/JSONResponse.cpp"; M = "include/graphqlservice/internal/SortedMap.h"
REFS = []
def R(id, file, *edits, count=1, **k):
    REFS.append(dict(id=id, count=count, compile=file if file.endswith("cpp") else "src/GraphQLService.cpp", edits=[(e if len(e) == 3 else (file,) + e) for e in edits], **k))

R("val-getif", P, ('''	if (!std::holds_alternative<MapData>(_data))
	{
		throw std::logic_error("Invalid call to Value::get for MapType");
	}

	return std::get<MapData>(_data).map;
''', '''	const auto data = std::get_if<MapData>(&_data);

	if (data == nullptr)
	{
		throw std::logic_error("Invalid call to Value::get for MapType");
	}

	return data->map;
'''), ('''	if (std::holds_alternative<IntType>(_data))
	{
		// Coerce IntType to FloatType
		return static_cast<FloatType>(std::get<IntType>(_data));
	}

	if (!std::holds_alternative<FloatType>(_data))
	{
		throw std::logic_error("Invalid call to Value::get for FloatType");
	}

	return std::get<FloatType>(_data);
''', '''	switch (type())
	{
		case Type::Float:
			return std::get<FloatType>(_data);

		case Type::Int:
			// Coerce IntType to FloatType
			return static_cast<FloatType>(std::get<IntType>(_data));

		default:
			throw std::logic_error("Invalid call to Value::get for FloatType");
	}
'''))
R("val-release", P, ('''	StringType result;

	if (std::holds_alternative<EnumData>(_data))
	{
		result = std::move(std::get<EnumData>(_data));
	}
	else if (std::holds_alternative<StringData>(_data))
	{
		auto& stringData = std::get<StringData>(_data);

		result = std::move(stringData.string);
		stringData.from_json = false;
	}
	else
	{
		throw std::logic_error("Invalid call to Value::release for StringType");
	}

	return result;
''', '''	if (auto stringData = std::get_if<StringData>(&_data))
	{
		stringData->from_json = false;

		return std::move(stringData->string);
	}

	if (auto enumData = std::get_if<EnumData>(&_data))
	{
		return StringType { std::move(*enumData) };
	}

	throw std::logic_error("Invalid call to Value::release for StringType");
'''), ('''	ListType result = std::move(std::get<ListType>(_data));

	return result;
''', '''	return std::move(std::get<ListType>(_data));
'''))
R("val-require", P, ('''template <>
void Value::set<IntType>(IntType value)
{
''', '''namespace {

template <typename T>
void requireAlternative(bool holds, const T& message)
{
	if (!holds)
	{
		throw std::logic_error(message);
	}
}

} // namespace

template <>
void Value::set<IntType>(IntType value)
{
'''), ('''	if (!std::holds_alternative<FloatType>(_data))
	{
		throw std::logic_error("Invalid call to Value::set for FloatType");
	}
''', '''	requireAlternative(std::holds_alternative<FloatType>(_data),
		"Invalid call to Value::set for FloatType");
'''), ('''	if (!std::holds_alternative<BooleanType>(_data))
	{
		throw std::logic_error("Invalid call to Value::get for BooleanType");
	}
''', '''	requireAlternative(std::holds_alternative<BooleanType>(_data),
		"Invalid call to Value::get for BooleanType");
'''))
R("val-copy-list", P, ('''			copy.reserve(other.size());
			for (size_t i = 0; i < other.size(); ++i)
			{
				copy.push_back(Value { other[i] });
			}

			_data = { std::move(copy) };
''', '''			const auto& elements = other.get<ListType>();

			copy.reserve(elements.size());
			for (const auto& element : elements)
			{
				copy.emplace_back(element);
			}

			_data = { std::move(copy) };
'''))
R("val-copy-map", P, ('''			copy.map.reserve(other.size());
			for (const auto& entry : other)
			{
				copy.map.push_back({ entry.first, Value { entry.second } });
			}
''', '''			copy.map.reserve(other.size());
			std::for_each(other.begin(), other.end(), [&copy](const auto& entry) {
				copy.map.emplace_back(entry.first, Value { entry.second });
			});
'''))
R("map-lower-bound", P, ('''	const auto [itr, itrEnd] = std::equal_range(mapData.members.cbegin(),
		mapData.members.cend(),
		std::nullopt,
		[&mapData, name](std::optional<size_t> lhs, std::optional<size_t> rhs) noexcept {
			std::string_view lhsName { lhs == std::nullopt ? name : mapData.map[*lhs].first };
			std::string_view rhsName { rhs == std::nullopt ? name : mapData.map[*rhs].first };
			return lhsName < rhsName;
		});

	if (itr == itrEnd)
	{
		return mapData.map.cend();
	}

	return mapData.map.cbegin() + *itr;
''', '''	const auto itr = std::lower_bound(mapData.members.cbegin(),
		mapData.members.cend(),
		name,
		[&mapData](size_t lhs, std::string_view rhs) noexcept {
			return std::string_view { mapData.map[lhs].first } < rhs;
		});

	if (itr == mapData.members.cend() || mapData.map[*itr].first != name)
	{
		return mapData.map.cend();
	}

	return mapData.map.cbegin() + *itr;
'''))
R("map-names", P, ('''	const auto [itr, itrEnd] = std::equal_range(mapData.members.cbegin(),
		mapData.members.cend(),
		std::nullopt,
		[&mapData, &name](std::optional<size_t> lhs, std::optional<size_t> rhs) noexcept {
			std::string_view lhsName { lhs == std::nullopt ? name : mapData.map[*lhs].first };
			std::string_view rhsName { rhs == std::nullopt ? name : mapData.map[*rhs].first };
			return lhsName < rhsName;
		});

	if (itr != itrEnd)
	{
		return false;
	}

	mapData.map.emplace_back(std::make_pair(std::move(name), std::move(value)));
	mapData.members.insert(itr, mapData.members.size());

	return true;
''', '''	const auto nameOf = [&mapData, &name](std::optional<size_t> index) noexcept {
		return std::string_view { index ? mapData.map[*index].first : name };
	};
	const auto range = std::equal_range(mapData.members.cbegin(),
		mapData.members.cend(),
		std::nullopt,
		[&nameOf](std::optional<size_t> lhs, std::optional<size_t> rhs) noexcept {
			return nameOf(lhs) < nameOf(rhs);
		});

	if (range.first == range.second)
	{
		const size_t index = mapData.map.size();

		mapData.members.insert(range.first, index);
		mapData.map.emplace_back(std::move(name), std::move(value));

		return true;
	}

	return false;
'''))
R("map-index", P, ('''	const auto itr = find(name);

	if (itr == end())
	{
		throw std::runtime_error("Missing Map member");
	}

	return itr->second;
''', '''	if (const auto itr = find(name); itr != end())
	{
		return itr->second;
	}

	throw std::runtime_error("Missing Map member");
'''))
R("val-from-json", P, ('''	if (std::holds_alternative<StringData>(_data))
	{
		std::get<StringData>(_data).from_json = true;
	}
''', '''	auto stringData = std::get_if<StringData>(&_data);

	if (stringData)
	{
		stringData->from_json = true;
	}
'''), ('''	return std::holds_alternative<EnumData>(_data)
		|| (std::holds_alternative<StringData>(_data) && std::get<StringData>(_data).from_json);
''', '''	if (const auto stringData = std::get_if<StringData>(&_data))
	{
		return stringData->from_json;
	}

	return std::holds_alternative<EnumData>(_data);
'''))

R("json-helpers", J, ('''void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& response)
{
''', '''using JSONWriter = rapidjson::Writer<rapidjson::StringBuffer>;

void writeResponse(JSONWriter& writer, Value&& response);

namespace {

void writeText(JSONWriter& writer, const std::string& text)
{
	writer.String(text.data(), static_cast<rapidjson::SizeType>(text.size()));
}

void writeMembers(JSONWriter& writer, MapType&& members)
{
	writer.StartObject();

	for (auto& [name, value] : members)
	{
		writer.Key(name.data(), static_cast<rapidjson::SizeType>(name.size()));
		writeResponse(writer, std::move(value));
	}

	writer.EndObject();
}

} // namespace

void writeResponse(JSONWriter& writer, Value&& response)
{
'''), ('''			auto members = response.release<MapType>();

			writer.StartObject();

			for (auto& entry : members)
			{
				writer.Key(entry.first.c_str(), static_cast<rapidjson::SizeType>(entry.first.size()));
				writeResponse(writer, std::move(entry.second));
			}

			writer.EndObject();
			break;
''', '''			writeMembers(writer, response.release<MapType>());
			break;
'''), ('''			auto value = response.release<StringType>();

			writer.String(value.c_str(), static_cast<rapidjson::SizeType>(value.size()));
			break;
''', '''			writeText(writer, response.release<StringType>());
			break;
'''))
R("json-returns", J, ('''		case Type::Null:
		{
			writer.Null();
			break;
		}

''', ''), ('''			if (std::isfinite(value))
			{
				writer.Double(value);
			}
			else
			{
				// There is no representation of NaN or Infinity in JSON
				writer.Null();
			}

			break;
''', '''			if (!std::isfinite(value))
			{
				// There is no representation of NaN or Infinity in JSON
				writer.Null();
				return;
			}

			writer.Double(value);
			return;
'''), ('''			auto elements = response.release<ListType>();

			writer.StartArray();

			for (auto& entry : elements)
			{
				writeResponse(writer, std::move(entry));
			}

			writer.EndArray();
''', '''			writer.StartArray();

			for (auto&& element : response.release<ListType>())
			{
				writeResponse(writer, std::move(element));
			}

			writer.EndArray();
'''))
R("json-handler", J, ('''		switch (_responseStack.back().type())
		{
			case Type::Map:
				_responseStack.back().emplace_back(std::move(_keyStack.back()), std::move(value));
				_keyStack.pop_back();
				break;

			case Type::List:
				_responseStack.back().emplace_back(std::move(value));
				break;

			default:
				_responseStack.back() = std::move(value);
				break;
		}
''', '''		auto& top = _responseStack.back();

		if (top.type() == Type::List)
		{
			top.emplace_back(std::move(value));
		}
		else if (top.type() == Type::Map)
		{
			auto key = std::move(_keyStack.back());

			_keyStack.pop_back();
			top.emplace_back(std::move(key), std::move(value));
		}
		else
		{
			top = std::move(value);
		}
'''), ('''		auto value = Value(Type::Int);

		value.set<IntType>(std::move(i));
		setValue(std::move(value));
		return true;
''', '''		setValue(Value(static_cast<IntType>(i)));
		return true;
'''), ('''		if (i > static_cast<unsigned int>(std::numeric_limits<int>::max()))
		{
			// http://spec.graphql.org/June2018/#sec-Int
			throw std::overflow_error("GraphQL only supports 32-bit signed integers");
		}
		return Int(static_cast<int>(i));
''', '''		constexpr auto maximum = static_cast<unsigned int>(std::numeric_limits<int>::max());

		if (i <= maximum)
		{
			return Int(static_cast<int>(i));
		}

		// http://spec.graphql.org/June2018/#sec-Int
		throw std::overflow_error("GraphQL only supports 32-bit signed integers");
'''))

R("sm-lower-bound", M, ('''		const K key { std::forward<KeyArg>(keyArg) };
		const auto [itr, itrEnd] = std::equal_range(_data.begin(),
			_data.end(),
			key,
			[](sorted_map_key lhs, sorted_map_key rhs) noexcept {
				return Compare {}(lhs.key, rhs.key);
			});

		if (itr == itrEnd)
		{
			throw std::out_of_range("key not found");
		}

		return itr->second;
''', '''		const K key { std::forward<KeyArg>(keyArg) };
		const auto itr = std::lower_bound(_data.begin(),
			_data.end(),
			key,
			[](const std::pair<K, V>& entry, const K& value) noexcept {
				return Compare {}(entry.first, value);
			});

		if (itr == _data.end() || Compare {}(key, itr->first))
		{
			throw std::out_of_range("key not found");
		}

		return itr->second;
'''))
R("sm-order", M, ('''		if (itr != itrEnd)
		{
			return { itr, false };
		}

		return { _data.emplace(itrEnd, std::move(key), V { std::forward<ValueArgs>(args)... }),
			true };
''', '''		if (itr == itrEnd)
		{
			const_iterator inserted =
				_data.emplace(itr, std::move(key), V { std::forward<ValueArgs>(args)... });

			return std::make_pair(inserted, true);
		}

		return { itr, false };
'''))
R("sm-index", M, ('''		if (itr != itrEnd)
		{
			return itr->second;
		}

		return _data.emplace(itrEnd, std::move(key), V {})->second;
''', '''		auto found = itr;

		if (itr == itrEnd)
		{
			found = _data.emplace(itrEnd, std::move(key), V {});
		}

		return found->second;
'''))
R("sm-less", M, ('''private:
	struct sorted_map_key
	{
''', '''private:
	static auto range(const vector_type& data, const K& key) noexcept
	{
		return std::equal_range(data.begin(),
			data.end(),
			key,
			[](sorted_map_key lhs, sorted_map_key rhs) noexcept {
				return Compare {}(lhs.key, rhs.key);
			});
	}

	struct sorted_map_key
	{
'''), ('''		const auto [itr, itrEnd] = std::equal_range(begin(),
			end(),
			key,
			[](sorted_map_key lhs, sorted_map_key rhs) noexcept {
				return Compare {}(lhs.key, rhs.key);
			});

		return itr == itrEnd ? _data.end() : itr;
''', '''		const auto found = range(_data, key);

		return found.first == found.second ? _data.end() : found.first;
'''))
