// Instantiates the modifier templates of GraphQLService.h, so that their bodies are in one translation unit.
#include "graphqlservice/GraphQLService.h"

using namespace graphql;
using namespace graphql::service;

namespace probe {

struct Derived : Object
{
	Derived();
};

constexpr auto None = TypeModifier::None;
constexpr auto Nullable = TypeModifier::Nullable;
constexpr auto List = TypeModifier::List;

template <typename T, TypeModifier... M>
std::future<ResolverResult> result(typename ModifiedResult<T>::template ResultTraits<T, M...>::type&& value, ResolverParams&& params)
{
	return ModifiedResult<T>::template convert<M...>(std::move(value), std::move(params));
}

std::future<ResolverResult> leaf(int&& value, ResolverParams&& params)
{
	return ModifiedResult<response::IntType>::convert(std::move(value), std::move(params));
}

template <typename T, TypeModifier... M>
void argument(const std::string& name, const response::Value& arguments)
{
	ModifiedArgument<T>::template require<M...>(name, arguments);
	ModifiedArgument<T>::template find<M...>(name, arguments);
}

void all(ResolverParams& p, const std::string& name, const response::Value& arguments)
{
	result<response::IntType, List>({}, std::move(p));
	result<response::BooleanType, List>({}, std::move(p));
	result<response::IntType, Nullable>({}, std::move(p));
	result<response::IntType, Nullable, List, Nullable>({}, std::move(p));
	result<Derived, List>({}, std::move(p));
	result<Derived, Nullable>({}, std::move(p));
	result<Derived, Nullable, List, Nullable>({}, std::move(p));
	result<Derived>({}, std::move(p));
	result<Object, Nullable>({}, std::move(p));
	argument<response::IntType>(name, arguments);
	argument<response::IntType, Nullable>(name, arguments);
	argument<response::IntType, List>(name, arguments);
	argument<response::IntType, Nullable, List, Nullable, List>(name, arguments);
	ModifiedArgument<response::IntType>::require(name, arguments);
	ModifiedArgument<response::IntType>::find(name, arguments);
}

} // namespace probe
