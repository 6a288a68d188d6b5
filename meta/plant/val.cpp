// Validates the documents given as arguments, one after the other, with one service of the validation sample.
// "+doc" has to be valid, "-doc" has to have errors, "Ndoc" (a digit) has to have exactly N errors.
#include "ValidationMock.h"
#include "graphqlservice/JSONResponse.h"
#include <iostream>
#include <list>
using namespace graphql;
int main(int argc, char** argv)
{
	auto svc = std::make_shared<validation::Operations>(std::make_shared<validation::Query>(),
		std::make_shared<validation::Mutation>(), std::make_shared<validation::Subscription>());
	int bad = 0;
	std::list<peg::ast> keep;
	for (int i = 1; i < argc; ++i)
	{
		std::string doc { argv[i] + 1 };
		const char want = argv[i][0];
		keep.push_back(peg::parseString(doc));
		auto errors = svc->validate(keep.back());
		const bool ok = want == '+' ? errors.empty() : want == '-' ? !errors.empty() : errors.size() == size_t(want - '0');
		std::cout << (ok ? "ok   " : "FAIL ") << want << " " << doc << "\n     " << response::toJSON(service::buildErrorValues(std::move(errors))) << std::endl;
		bad += !ok;
	}
	return bad != 0;
}
