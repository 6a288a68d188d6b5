// Instantiates the modifier templates of GraphQLClient.h, for lists of booleans, whose elements are not references to booleans in C++.
#include "graphqlservice/GraphQLClient.h"

using namespace graphql;
using namespace graphql::client;

namespace probe {

constexpr auto None = TypeModifier::None;
constexpr auto Nullable = TypeModifier::Nullable;
constexpr auto List = TypeModifier::List;

template <typename T, TypeModifier... M>
void both(typename ModifiedVariable<T>::template VariableTraits<T, M...>::type&& value, response::Value&& response)
{
	ModifiedVariable<T>::template serialize<M...>(std::move(value));
	ModifiedResponse<T>::template parse<M...>(std::move(response));
}

void all(response::Value& r)
{
	both<response::BooleanType, List, Nullable, List>({}, std::move(r));
}

} // namespace probe
