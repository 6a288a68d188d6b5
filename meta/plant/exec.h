// Minimal hand written service on top of the validation sample's schema.
#include "ValidationSchema.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/JSONResponse.h"
#include <iostream>
#include <functional>
#include <thread>
using namespace graphql;
using namespace graphql::service;
using V = response::Value;
static V str(const std::string& s) { return V(std::string(s)); }
struct Obj : Object {
	std::function<void(const SelectionSetParams&)> begin, end;
	Obj(TypeNames&& t, ResolverMap&& r) : Object(std::move(t), std::move(r)) {}
	void beginSelectionSet(const SelectionSetParams& p) const override { if (begin) begin(p); }
	void endSelectionSet(const SelectionSetParams& p) const override { if (end) end(p); }
};
using ObjP = std::shared_ptr<Object>;
static Resolver strField(const std::string& v) {
	return [v](ResolverParams&& p) { return StringResult::convert(FieldResult<std::string>(std::string(v)), std::move(p)); };
}
static Resolver boolField(bool v) {
	return [v](ResolverParams&& p) { return BooleanResult::convert(FieldResult<bool>(bool(v)), std::move(p)); };
}
static Resolver objField(ObjP o) {
	return [o](ResolverParams&& p) { return ObjectResult::convert(FieldResult<ObjP>(ObjP(o)), std::move(p)); };
}
struct Svc : Request {
	Svc(TypeMap&& t) : Request(std::move(t), validation::GetSchema()) {}
	virtual ~Svc() {}
};
static ObjP human(const std::string& n) { return std::make_shared<Obj>(TypeNames{"Human","Sentient"}, ResolverMap{ {"name", strField(n)} }); }
static ObjP dog(const std::string& n) {
	return std::make_shared<Obj>(TypeNames{"Dog","Pet","CatOrDog","DogOrHuman"}, ResolverMap{
		{"name", strField(n)}, {"nickname", strField("nick-" + n)}, {"owner", objField(human("owner-" + n))},
		{"doesKnowCommand", boolField(true)}, {"__typename", strField("Dog")} });
}
static ObjP message(const std::string& b) { return std::make_shared<Obj>(TypeNames{"Message"}, ResolverMap{ {"body", strField(b)}, {"sender", strField("me")} }); }
static std::string js(V&& v) { return response::toJSON(std::move(v)); }
static std::string run(Svc& s, const std::string& q, V&& vars = V(response::Type::Map), const std::string& op = "", std::launch l = std::launch::deferred) {
	auto a = std::make_shared<peg::ast>(peg::parseString(q));
	try { return js(s.resolve(l, nullptr, *a, op, std::move(vars)).get()); }
	catch (const std::exception& ex) { return std::string("THROWN ") + ex.what(); }
}
static int fails = 0;
#define EXPECT(got, want) do { std::string g_ = (got), w_ = (want); if (g_ != w_) { std::cout << "line " << __LINE__ << "\n  got  " << g_ << "\n  want " << w_ << "\n"; ++fails; } } while (0)
