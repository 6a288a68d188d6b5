From d91f4f5871dbdbfa8f7ad3f0b89170bd26c10d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 01/40] fix: report missing required arguments of directives
 without an argument list

---
 src/Validation.cpp | 111 +++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 55 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 23e4731..5ea1980 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -2010,12 +2010,13 @@ void ValidateExecutableVisitor::visitDirectives(
 			continue;
 		}
 
-		peg::on_first_child<peg::arguments>(*directive,
-			[this, &directive, &directiveName, itrDirective](const peg::ast_node& child) {
-				ValidateFieldArguments validateArguments;
-				internal::string_view_map<schema_location> argumentLocations;
-				std::list<std::string_view> argumentNames;
+		ValidateFieldArguments validateArguments;
+		internal::string_view_map<schema_location> argumentLocations;
+		std::list<std::string_view> argumentNames;
 
+		peg::on_first_child<peg::arguments>(*directive,
+			[this, &directiveName, &validateArguments, &argumentLocations, &argumentNames](
+				const peg::ast_node& child) {
 				for (auto& argument : child.children)
 				{
 					auto position = argument->begin();
@@ -2040,68 +2041,68 @@ void ValidateExecutableVisitor::visitDirectives(
 					argumentLocations[argumentName] = { position.line, position.column };
 					argumentNames.push_back(argumentName);
 				}
+			});
 
-				for (auto argumentName : argumentNames)
-				{
-					auto itrArgument = itrDirective->second.arguments.find(argumentName);
+		for (auto argumentName : argumentNames)
+		{
+			auto itrArgument = itrDirective->second.arguments.find(argumentName);
 
-					if (itrArgument == itrDirective->second.arguments.end())
-					{
-						// http://spec.graphql.org/June2018/#sec-Argument-Names
-						std::ostringstream message;
+			if (itrArgument == itrDirective->second.arguments.end())
+			{
+				// http://spec.graphql.org/June2018/#sec-Argument-Names
+				std::ostringstream message;
 
-						message << "Undefined argument directive: " << directiveName
-								<< " name: " << argumentName;
+				message << "Undefined argument directive: " << directiveName
+						<< " name: " << argumentName;
 
-						_errors.push_back({ message.str(), argumentLocations[argumentName] });
-					}
-				}
+				_errors.push_back({ message.str(), argumentLocations[argumentName] });
+			}
+		}
 
-				for (auto& argument : itrDirective->second.arguments)
-				{
-					auto itrArgument = validateArguments.find(argument.first);
-					const bool missing = itrArgument == validateArguments.end();
+		for (auto& argument : itrDirective->second.arguments)
+		{
+			auto itrArgument = validateArguments.find(argument.first);
+			const bool missing = itrArgument == validateArguments.end();
 
-					if (!missing && itrArgument->second.value)
-					{
-						// The value was not null.
-						if (!validateInputValue(argument.second.nonNullDefaultValue,
-								itrArgument->second,
-								argument.second.type))
-						{
-							// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
-							std::ostringstream message;
+			if (!missing && itrArgument->second.value)
+			{
+				// The value was not null.
+				if (!validateInputValue(argument.second.nonNullDefaultValue,
+						itrArgument->second,
+						argument.second.type))
+				{
+					// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
+					std::ostringstream message;
 
-							message << "Incompatible argument directive: " << directiveName
-									<< " name: " << argument.first;
+					message << "Incompatible argument directive: " << directiveName
+							<< " name: " << argument.first;
 
-							_errors.push_back({ message.str(), argumentLocations[argument.first] });
-						}
+					_errors.push_back({ message.str(), argumentLocations[argument.first] });
+				}
 
-						continue;
-					}
-					else if (argument.second.defaultValue)
-					{
-						// The argument has a default value.
-						continue;
-					}
+				continue;
+			}
+			else if (argument.second.defaultValue)
+			{
+				// The argument has a default value.
+				continue;
+			}
 
-					// See if the argument is wrapped in NON_NULL
-					if (argument.second.type
-						&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
-					{
-						// http://spec.graphql.org/June2018/#sec-Required-Arguments
-						auto position = directive->begin();
-						std::ostringstream message;
+			// See if the argument is wrapped in NON_NULL
+			if (argument.second.type
+				&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
+			{
+				// http://spec.graphql.org/June2018/#sec-Required-Arguments
+				auto position = directive->begin();
+				std::ostringstream message;
 
-						message << (missing ? "Missing argument directive: "
-											: "Required non-null argument directive: ")
-								<< directiveName << " name: " << argument.first;
+				message << (missing ? "Missing argument directive: "
+									: "Required non-null argument directive: ")
+						<< directiveName << " name: " << argument.first;
 
-						_errors.push_back({ message.str(), { position.line, position.column } });
-					}
-				}
-			});
+				_errors.push_back({ message.str(), { position.line, position.column } });
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 5c28bcec716ddd0c120f1391c2497d9841763d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 02/40] fix: forget the variables of an operation whose type is
 not supported

---
 src/Validation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 5ea1980..8c9f54f 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -769,6 +769,10 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 		error << "Unsupported operation type: " << operationType;
 
 		_errors.push_back({ error.str(), { position.line, position.column } });
+
+		_operationVariables.reset();
+		_variableDefinitions.clear();
+		_referencedVariables.clear();
 		return;
 	}
 
-- 
2.43.0


From cd415cc45c062a77c9c5dd8e8d1ad1d17bf8befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 03/40] fix: subscribe to the selected operation of a document
 only

Request::subscribe registered every operation definition of the document in
turn: the field of the last one won (or a second one was refused as an extra
root field), whatever operationName selected, and the selection set it kept
came from a syntax tree which the previous visit had moved away.
---
 src/GraphQLService.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index e1c409a..c59d558 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1396,7 +1396,6 @@ public:
 	SubscriptionDefinitionVisitor(SubscriptionParams&& params, SubscriptionCallback&& callback,
 		FragmentMap&& fragments, const std::shared_ptr<Object>& subscriptionObject);
 
-	const peg::ast_node& getRoot() const;
 	std::shared_ptr<SubscriptionData> getRegistration();
 
 	void visit(const peg::ast_node& operationDefinition);
@@ -1426,11 +1425,6 @@ SubscriptionDefinitionVisitor::SubscriptionDefinitionVisitor(SubscriptionParams&
 {
 }
 
-const peg::ast_node& SubscriptionDefinitionVisitor::getRoot() const
-{
-	return *_params.query.root;
-}
-
 std::shared_ptr<SubscriptionData> SubscriptionDefinitionVisitor::getRegistration()
 {
 	auto result = std::move(_result);
@@ -1984,10 +1978,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		std::move(fragments),
 		itr->second);
 
-	peg::for_each_child<peg::operation_definition>(subscriptionVisitor.getRoot(),
-		[&subscriptionVisitor](const peg::ast_node& child) {
-			subscriptionVisitor.visit(child);
-		});
+	subscriptionVisitor.visit(*operationDefinition.second);
 
 	auto registration = subscriptionVisitor.getRegistration();
 	auto key = _nextKey++;
-- 
2.43.0


From d3024610f33244d707660c3a82a6e16cf5ac2f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 04/40] fix: look for the field of a subscription inside of
 fragments

The selections of a fragment were dispatched as if each of them was an
operation definition, and matching the type condition needed a default
Subscription object in the operations map.
---
 src/GraphQLService.cpp | 47 ++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index c59d558..a4551e3 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1401,6 +1401,9 @@ public:
 	void visit(const peg::ast_node& operationDefinition);
 
 private:
+	void visitSelection(const peg::ast_node& selection);
+	bool matchesType(std::string_view typeName) const;
+
 	void visitField(const peg::ast_node& field);
 	void visitFragmentSpread(const peg::ast_node& fragmentSpread);
 	void visitInlineFragment(const peg::ast_node& inlineFragment);
@@ -1440,18 +1443,7 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 
 	for (const auto& child : selection.children)
 	{
-		if (child->is_type<peg::field>())
-		{
-			visitField(*child);
-		}
-		else if (child->is_type<peg::fragment_spread>())
-		{
-			visitFragmentSpread(*child);
-		}
-		else if (child->is_type<peg::inline_fragment>())
-		{
-			visitInlineFragment(*child);
-		}
+		visitSelection(*child);
 	}
 
 	response::Value directives(response::Type::Map);
@@ -1478,6 +1470,29 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 			selection);
 }
 
+void SubscriptionDefinitionVisitor::visitSelection(const peg::ast_node& selection)
+{
+	if (selection.is_type<peg::field>())
+	{
+		visitField(selection);
+	}
+	else if (selection.is_type<peg::fragment_spread>())
+	{
+		visitFragmentSpread(selection);
+	}
+	else if (selection.is_type<peg::inline_fragment>())
+	{
+		visitInlineFragment(selection);
+	}
+}
+
+bool SubscriptionDefinitionVisitor::matchesType(std::string_view typeName) const
+{
+	// There may be an empty entry in the operations map if the service only passes an object to
+	// Request::deliver. Validation has already checked that the fragments can be spread here.
+	return !_subscriptionObject || _subscriptionObject->matchesType(typeName);
+}
+
 void SubscriptionDefinitionVisitor::visitField(const peg::ast_node& field)
 {
 	std::string_view name;
@@ -1546,7 +1561,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		};
 	}
 
-	bool skip = !_subscriptionObject->matchesType(itr->second.getType());
+	bool skip = !matchesType(itr->second.getType());
 	DirectiveVisitor directiveVisitor(_params.variables);
 
 	if (!skip)
@@ -1566,7 +1581,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 
 	for (const auto& selection : itr->second.getSelection().children)
 	{
-		visit(*selection);
+		visitSelection(*selection);
 	}
 }
 
@@ -1592,12 +1607,12 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 		});
 
 	if (typeCondition == nullptr
-		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
+		|| matchesType(typeCondition->children.front()->string_view()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
 			for (const auto& selection : child.children)
 			{
-				visit(*selection);
+				visitSelection(*selection);
 			}
 		});
 	}
-- 
2.43.0


From 2babf947e146b2e9b0e0d564e1509f0bc410ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 05/40] fix: asynchronous subscribe and unsubscribe without a
 default Subscription object

The operations map may hold an empty entry for the subscription type (see
Request::deliver): there is no object to notify then.
---
 src/GraphQLService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index a4551e3..950e346 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2014,7 +2014,7 @@ std::future<SubscriptionKey> Request::subscribe(
 			const auto key = spThis->subscribe(std::move(paramsFuture), std::move(callbackFuture));
 			const auto itrOperation = spThis->_operations.find(strSubscription);
 
-			if (itrOperation != spThis->_operations.end())
+			if (itrOperation != spThis->_operations.end() && itrOperation->second)
 			{
 				const auto& operation = itrOperation->second;
 				const auto& registration = spThis->_subscriptions.at(key);
@@ -2088,7 +2088,7 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 	return std::async(launch, [spThis = shared_from_this(), launch, key]() {
 		const auto itrOperation = spThis->_operations.find(strSubscription);
 
-		if (itrOperation != spThis->_operations.end())
+		if (itrOperation != spThis->_operations.end() && itrOperation->second)
 		{
 			const auto& operation = itrOperation->second;
 			const auto& registration = spThis->_subscriptions.at(key);
-- 
2.43.0


From a1deb0cf353fb10ece640aa39b777e70f0b5e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 06/40] fix: rethrow the exception of a failed subscribe
 without slicing it

'throw ex' threw a copy of the std::exception base and lost the
schema_exception with its structured errors.
---
 src/GraphQLService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 950e346..af2b429 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2039,11 +2039,11 @@ std::future<SubscriptionKey> Request::subscribe(
 							registration->data->variables)
 						.get();
 				}
-				catch (const std::exception& ex)
+				catch (const std::exception&)
 				{
 					// Rethrow the exception, but don't leave it subscribed if the resolver failed.
 					spThis->unsubscribe(key);
-					throw ex;
+					throw;
 				}
 			}
 
-- 
2.43.0


From f399a420eb4ebfdb17c26432401f0af3a13448f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 07/40] fix: a skipped field does not hide another selection
 with its response name

{ name @skip(if: true) name } and { name @include(if: false) ...F } with name
selected in F are valid, and the selection which is not skipped has to be
resolved.
---
 src/GraphQLService.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index af2b429..0491b7f 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -887,6 +887,8 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 
 	if (directiveVisitor.shouldSkip())
 	{
+		// The same response name may still come from another selection which is not skipped.
+		_names.erase(alias);
 		return;
 	}
 
-- 
2.43.0


From 0e161703e05378641b4210254833400ddeb6834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:14 +0000
Subject: [PATCH 08/40] fix: report schema errors of the root selection set in
 the response document

An exception which escapes from the selection set of the operation (e.g. a
variable of a @skip directive which was not provided) was thrown out of the
future instead of ending up in the errors, as it does for nested objects.
---
 src/GraphQLService.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 0491b7f..94cca02 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1758,7 +1758,17 @@ std::future<response::Value> Request::resolve(std::launch launch,
 		return std::async(
 			launch,
 			[](std::future<ResolverResult>&& operationFuture) {
-				auto result = operationFuture.get();
+				ResolverResult result;
+
+				try
+				{
+					result = operationFuture.get();
+				}
+				catch (schema_exception& ex)
+				{
+					result.errors = ex.getStructuredErrors();
+				}
+
 				response::Value document { response::Type::Map };
 
 				document.emplace_back(std::string { strData }, std::move(result.data));
@@ -1912,7 +1922,17 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 		return std::async(
 			launch,
 			[](std::future<ResolverResult>&& operationFuture) {
-				auto result = operationFuture.get();
+				ResolverResult result;
+
+				try
+				{
+					result = operationFuture.get();
+				}
+				catch (schema_exception& ex)
+				{
+					result.errors = ex.getStructuredErrors();
+				}
+
 				response::Value document { response::Type::Map };
 
 				document.emplace_back(std::string { strData }, std::move(result.data));
-- 
2.43.0


From 5275e208f27d382d91a86fa50232584a658b1b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:18 +0000
Subject: [PATCH 09/40] fix: apply the default values of the variables of a
 subscription

The arguments of the subscription field and the directives were evaluated
with the variables of the request only, so a declared variable with a default
value, or an optional one, was reported as unknown.
---
 src/GraphQLService.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 94cca02..d937888 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1441,6 +1441,42 @@ std::shared_ptr<SubscriptionData> SubscriptionDefinitionVisitor::getRegistration
 
 void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefinition)
 {
+	// Filter the variable definitions down to the ones referenced in this operation
+	response::Value operationVariables(response::Type::Map);
+
+	peg::for_each_child<peg::variable>(operationDefinition,
+		[this, &operationVariables](const peg::ast_node& variable) {
+			std::string variableName;
+
+			peg::on_first_child<peg::variable_name>(variable,
+				[&variableName](const peg::ast_node& name) {
+					// Skip the $ prefix
+					variableName = name.string_view().substr(1);
+				});
+
+			auto itrVar = _params.variables.find(variableName);
+			response::Value valueVar;
+
+			if (itrVar != _params.variables.get<response::MapType>().cend())
+			{
+				valueVar = response::Value(itrVar->second);
+			}
+			else
+			{
+				peg::on_first_child<peg::default_value>(variable,
+					[this, &valueVar](const peg::ast_node& defaultValue) {
+						ValueVisitor visitor(_params.variables);
+
+						visitor.visit(*defaultValue.children.front());
+						valueVar = visitor.getValue();
+					});
+			}
+
+			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
+		});
+
+	_params.variables = std::move(operationVariables);
+
 	const auto& selection = *operationDefinition.children.back();
 
 	for (const auto& child : selection.children)
-- 
2.43.0


From e4a6cf390dac9968c3004af65107129ba8af4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 10/40] fix: an element of a list which failed is null instead
 of missing

The errors were collected, but nothing took the place of the element, so the
elements after it moved to other indexes than the path of their errors says.
---
 include/graphqlservice/GraphQLService.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 285686e..e912281 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -693,6 +693,8 @@ struct ModifiedResult
 						{
 							document.errors.splice(document.errors.end(), errors);
 						}
+
+						document.data.emplace_back({});
 					}
 					catch (const std::exception& ex)
 					{
@@ -704,6 +706,7 @@ struct ModifiedResult
 						document.errors.emplace_back(schema_error { message.str(),
 							wrappedParams.getLocation(),
 							buildErrorPath(wrappedParams.errorPath) });
+						document.data.emplace_back({});
 					}
 
 					++std::get<size_t>(wrappedParams.errorPath->segment);
-- 
2.43.0


From 282dc9b65b3e80b8d1a9470d2a27047c689e0bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 11/40] fix: @include is honoured next to @skip(if: false)

A selection with both directives is only included if neither of them says
otherwise, but the first one found decided alone.
---
 src/GraphQLService.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index d937888..25e642a 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -451,13 +451,13 @@ bool DirectiveVisitor::shouldSkip() const
 			argumentFalse = !argumentTrue;
 		}
 
-		if (argumentTrue)
+		if (argumentTrue || argumentFalse)
 		{
-			return skip;
-		}
-		else if (argumentFalse)
-		{
-			return !skip;
+			// Either directive is enough to skip the selection, so keep looking otherwise.
+			if (argumentTrue == skip)
+			{
+				return true;
+			}
 		}
 		else
 		{
-- 
2.43.0


From d8a91047fcea26dcb38406b080da6e8cc562ec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 12/40] fix: deliver without filters reaches every subscription
 of the field

doc/subscriptions.md: the first overload unconditionally invokes every subscribed callback, the
second filters on the arguments. Both skipped subscriptions with a directive on their field, and
the first one also skipped those with arguments.
---
 src/GraphQLService.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 25e642a..e0e620e 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2211,13 +2211,29 @@ void Request::deliver(const SubscriptionName& name,
 void Request::deliver(std::launch launch, const SubscriptionName& name,
 	const std::shared_ptr<Object>& subscriptionObject) const
 {
-	deliver(launch, name, SubscriptionArguments {}, SubscriptionArguments {}, subscriptionObject);
+	// Deliver to every subscription of this field, whatever its arguments and directives are.
+	deliver(
+		launch,
+		name,
+		[](response::MapType::const_reference) noexcept {
+			return true;
+		},
+		subscriptionObject);
 }
 
 void Request::deliver(std::launch launch, const SubscriptionName& name,
 	const SubscriptionArguments& arguments, const std::shared_ptr<Object>& subscriptionObject) const
 {
-	deliver(launch, name, arguments, SubscriptionArguments {}, subscriptionObject);
+	// Filter on the arguments only, the directives of the subscription don't matter.
+	deliver(
+		launch,
+		name,
+		[&arguments](response::MapType::const_reference required) noexcept {
+			auto itrArgument = arguments.find(required.first);
+
+			return (itrArgument != arguments.end() && itrArgument->second == required.second);
+		},
+		subscriptionObject);
 }
 
 void Request::deliver(std::launch launch, const SubscriptionName& name,
-- 
2.43.0


From b3e5e23fffcdab745e80aecf5993c3c630b59ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 13/40] fix: the source name of a parsed document does not
 refer to the temporary input

The ast_node keeps a string_view of the source name of its input, which is a
std::string member of the temporary memory_input by default.
---
 src/SyntaxTree.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index b323f54..49eaeb3 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -732,6 +732,10 @@ template <>
 const std::string ast_control<schema_document_content>::error_message =
 	"Expected schema type http://spec.graphql.org/June2018/#Document";
 
+// Every node keeps a view of the source name, so it must outlive the input which is only used while
+// parsing. The default Source is a std::string owned by the input, this one is a string literal.
+using literal_source_input = memory_input<tracking_mode::eager, eol::lf_crlf, const char*>;
+
 ast parseSchemaString(std::string_view input)
 {
 	ast result { std::make_shared<ast_input>(
@@ -744,7 +748,7 @@ ast parseSchemaString(std::string_view input)
 		// Try a smaller grammar with only schema type definitions first.
 		result.root =
 			parse_tree::parse<schema_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				literal_source_input(data.data(), data.size(), "GraphQL"));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -752,7 +756,7 @@ ast parseSchemaString(std::string_view input)
 		// executable definitions if this is a mixed document.
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				literal_source_input(data.data(), data.size(), "GraphQL"));
 	}
 
 	return result;
@@ -803,7 +807,7 @@ ast parseString(std::string_view input)
 		// Try a smaller grammar with only executable definitions first.
 		result.root = parse_tree::
 			parse<executable_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				literal_source_input(data.data(), data.size(), "GraphQL"));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -811,7 +815,7 @@ ast parseString(std::string_view input)
 		// definitions if this is a mixed document.
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				literal_source_input(data.data(), data.size(), "GraphQL"));
 	}
 
 	return result;
@@ -865,7 +869,7 @@ peg::ast operator"" _graphql(const char* text, size_t size)
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(peg::literal_source_input(text, size, "GraphQL"));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -875,7 +879,7 @@ peg::ast operator"" _graphql(const char* text, size_t size)
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(peg::literal_source_input(text, size, "GraphQL"));
 	}
 
 	return result;
-- 
2.43.0


From 161e177da39ba733e6146fcde4f315c2e21f838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 14/40] fix: keep the directives of fragments until the
 selection set is resolved

The directives of the fragments around a selection are passed to its resolver
by reference, but they were destroyed when the visitor left the fragment, even
if the resolver runs later or uses them asynchronously.
---
 src/GraphQLService.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index e0e620e..75861b8 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -767,10 +767,14 @@ public:
 
 	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> getValues();
 
+	// The pending values may still use the directives of any fragment which was visited.
+	std::list<FragmentDirectives> getFragmentDirectives();
+
 private:
 	void visitField(const peg::ast_node& field);
 	void visitFragmentSpread(const peg::ast_node& fragmentSpread);
 	void visitInlineFragment(const peg::ast_node& inlineFragment);
+	void leaveFragment();
 
 	const ResolverContext _resolverContext;
 	const std::shared_ptr<RequestState>& _state;
@@ -783,6 +787,7 @@ private:
 	const ResolverMap& _resolvers;
 
 	std::list<FragmentDirectives> _fragmentDirectives;
+	std::list<FragmentDirectives> _visitedFragmentDirectives;
 	internal::string_view_set _names;
 	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> _values;
 };
@@ -817,6 +822,24 @@ std::vector<std::pair<std::string_view, std::future<ResolverResult>>> SelectionV
 	return values;
 }
 
+std::list<FragmentDirectives> SelectionVisitor::getFragmentDirectives()
+{
+	auto directives = std::move(_visitedFragmentDirectives);
+
+	directives.splice(directives.end(), _fragmentDirectives);
+
+	return directives;
+}
+
+void SelectionVisitor::leaveFragment()
+{
+	// The list nodes don't move, so the references to these directives which were passed to the
+	// fields of the fragment stay valid.
+	_visitedFragmentDirectives.splice(_visitedFragmentDirectives.end(),
+		_fragmentDirectives,
+		std::prev(_fragmentDirectives.end()));
+}
+
 void SelectionVisitor::visit(const peg::ast_node& selection)
 {
 	if (selection.is_type<peg::field>())
@@ -1051,7 +1074,7 @@ void SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
 		visit(*selection);
 	}
 
-	_fragmentDirectives.pop_back();
+	leaveFragment();
 }
 
 void SelectionVisitor::visitInlineFragment(const peg::ast_node& inlineFragment)
@@ -1111,7 +1134,7 @@ void SelectionVisitor::visitInlineFragment(const peg::ast_node& inlineFragment)
 					visit(*selection);
 				}
 
-				_fragmentDirectives.pop_back();
+				leaveFragment();
 			});
 	}
 }
@@ -1144,7 +1167,8 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 	return std::async(
 		selectionSetParams.launch,
-		[](std::vector<std::pair<std::string_view, std::future<ResolverResult>>>&& children) {
+		[](std::vector<std::pair<std::string_view, std::future<ResolverResult>>>&& children,
+			const std::list<FragmentDirectives>&) {
 			ResolverResult document { response::Value { response::Type::Map } };
 
 			document.data.reserve(children.size());
@@ -1197,7 +1221,8 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 			return document;
 		},
-		visitor.getValues());
+		visitor.getValues(),
+		visitor.getFragmentDirectives());
 }
 
 bool Object::matchesType(std::string_view typeName) const
-- 
2.43.0


From 553a1b9ee862a2722ec471a080628295b027515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 15/40] fix: a scalar value without content can be copied

---
 src/GraphQLResponse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLResponse.cpp b/src/GraphQLResponse.cpp
index 7ddaf65..e0850d3 100644
--- a/src/GraphQLResponse.cpp
+++ b/src/GraphQLResponse.cpp
@@ -466,8 +466,13 @@ Value::Value(const Value& other)
 			break;
 
 		case Type::Scalar:
-			_data = { ScalarData { std::make_unique<ScalarType>(other.get<ScalarType>()) } };
+		{
+			// A scalar is empty until it is set.
+			const auto& scalar = std::get<ScalarData>(other._data).scalar;
+
+			_data = { ScalarData { scalar ? std::make_unique<ScalarType>(*scalar) : nullptr } };
 			break;
+		}
 	}
 }
 
-- 
2.43.0


From 29da6f7cf14bd8bcfe2fbcd60912783a88cabaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 16/40] fix: strings and keys which contain NUL characters keep
 their length in JSON

---
 src/JSONResponse.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index c0d9172..29c00d1 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -28,7 +28,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 			for (auto& entry : members)
 			{
-				writer.Key(entry.first.c_str());
+				writer.Key(entry.first.c_str(), static_cast<rapidjson::SizeType>(entry.first.size()));
 				writeResponse(writer, std::move(entry.second));
 			}
 
@@ -56,7 +56,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 		{
 			auto value = response.release<StringType>();
 
-			writer.String(value.c_str());
+			writer.String(value.c_str(), static_cast<rapidjson::SizeType>(value.size()));
 			break;
 		}
 
@@ -178,9 +178,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool String(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool String(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		setValue(Value(std::string(str)).from_json());
+		setValue(Value(std::string(str, length)).from_json());
 		return true;
 	}
 
@@ -190,9 +190,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool Key(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool Key(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		_keyStack.push_back(str);
+		_keyStack.emplace_back(str, length);
 		return true;
 	}
 
-- 
2.43.0


From ed338e0d8ef4953a7d6e81c1af764ca83b755218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 17/40] fix: a Float which is not finite is null in JSON

---
 src/JSONResponse.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index 29c00d1..6bacb68 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -10,6 +10,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <stdexcept>
 #include <vector>
@@ -80,7 +81,18 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 		case Type::Float:
 		{
-			writer.Double(response.get<FloatType>());
+			const auto value = response.get<FloatType>();
+
+			if (std::isfinite(value))
+			{
+				writer.Double(value);
+			}
+			else
+			{
+				// There is no representation of NaN or Infinity in JSON
+				writer.Null();
+			}
+
 			break;
 		}
 
-- 
2.43.0


From 4897e8760a2fbb52900158244a909f431c8f7a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:01 +0000
Subject: [PATCH 18/40] fix: floats with both a fraction and an exponent are
 parsed as a whole

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 1e95e2d..9cbc778 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -224,7 +224,7 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<fractional_part, exponent_part, seq<fractional_part, exponent_part>>>
+	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>>
 {
 };
 
-- 
2.43.0


From a3663f5faaec3913d065b903ffb85c7865450be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:01 +0000
Subject: [PATCH 19/40] fix: enum values are declared with the same C++ names
 they are used with

---
 src/SchemaGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 0de251b..a09a9df 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -220,7 +220,7 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 				}
 
 				firstValue = false;
-				headerFile << R"cpp(	)cpp" << value.value;
+				headerFile << R"cpp(	)cpp" << value.cppValue;
 			}
 			headerFile << R"cpp(
 };
-- 
2.43.0


From c2d07e9c1dd19b18aac04a5dd9183e3177c82adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:01 +0000
Subject: [PATCH 20/40] fix: clients send and accept the names of the schema's
 enum values

---
 src/ClientGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 5c69973..fdd6ce2 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -484,7 +484,7 @@ using namespace )cpp"
 		for (const auto& enumValue : enumValues)
 		{
 			firstValue = false;
-			sourceFile << R"cpp(	")cpp" << SchemaLoader::getSafeCppName(enumValue->name())
+			sourceFile << R"cpp(	")cpp" << enumValue->name()
 					   << R"cpp("sv,
 )cpp";
 		}
-- 
2.43.0


From b321b922caff26906d4a352c85f88bcbbf82220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 21/40] fix: escape sequences in strings are replaced by what
 they stand for

---
 src/SyntaxTree.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 49eaeb3..f171357 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -55,12 +55,12 @@ std::string_view ast_node::unescaped_view() const
 				children.cend(),
 				size_t(0),
 				[](size_t total, const std::unique_ptr<ast_node>& child) {
-					return total + child->string_view().size();
+					return total + child->unescaped_view().size();
 				}));
 
 			for (const auto& child : children)
 			{
-				joined.append(child->string_view());
+				joined.append(child->unescaped_view());
 			}
 
 			const_cast<ast_node*>(this)->_unescaped =
@@ -69,7 +69,7 @@ std::string_view ast_node::unescaped_view() const
 		else if (!children.empty())
 		{
 			const_cast<ast_node*>(this)->_unescaped =
-				std::make_unique<unescaped_t>(children.front()->string_view());
+				std::make_unique<unescaped_t>(children.front()->unescaped_view());
 		}
 		else if (has_content() && is_type<escaped_unicode>())
 		{
-- 
2.43.0


From 743549755da3ed6c26986d9da04ff7ada4861b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 22/40] fix: descriptions are kept whole when they hold escape
 sequences

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 9cbc778..3a7d2ef 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -572,7 +572,7 @@ struct scalar_keyword : TAO_PEGTL_KEYWORD("scalar")
 };
 
 // http://spec.graphql.org/June2018/#Description
-struct description : string_value
+struct description : seq<string_value>
 {
 };
 
-- 
2.43.0


From b87dc2d566114b6c153076d83a998bf5ac482c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:11 +0000
Subject: [PATCH 23/40] fix: generated default values keep all digits of a
 float

---
 src/SchemaGenerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index a09a9df..e9a5217 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -38,6 +38,7 @@
 #include <cctype>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <regex>
 #include <sstream>
 #include <stdexcept>
@@ -1810,6 +1811,7 @@ std::string Generator::getArgumentDefaultValue(
 
 		case response::Type::Float:
 		{
+			argumentDefaultValue.precision(std::numeric_limits<response::FloatType>::max_digits10);
 			argumentDefaultValue
 				<< padding
 				<< R"cpp(		entry = response::Value(static_cast<response::FloatType>()cpp"
-- 
2.43.0


From 30b64f4fe3fafd85505553c3a0ed84b136c57b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 24/40] fix: type extensions apply wherever the type is defined
 in the document

---
 src/SchemaLoader.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index cd347d7..69bdcb8 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -163,9 +163,29 @@ SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
 		}
 	}
 
+	// Visit the extensions last, they may appear before the definition of the type they extend.
+	const auto isExtension = [](const peg::ast_node& child) noexcept {
+		return child.is_type<peg::schema_extension>() || child.is_type<peg::enum_type_extension>()
+			|| child.is_type<peg::input_object_type_extension>()
+			|| child.is_type<peg::union_type_extension>()
+			|| child.is_type<peg::interface_type_extension>()
+			|| child.is_type<peg::object_type_extension>();
+	};
+
 	for (const auto& child : _ast.root->children)
 	{
-		visitDefinition(*child);
+		if (!isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
+	}
+
+	for (const auto& child : _ast.root->children)
+	{
+		if (isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
 	}
 
 	validateSchema();
-- 
2.43.0


From 8779e16591bc5e33cf0f0d1f64dabc72faf1db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 25/40] fix: deprecated without a reason has the default reason

---
 src/SchemaLoader.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 69bdcb8..ee6aedc 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -34,6 +34,9 @@ const CppTypeMap SchemaLoader::s_builtinCppTypes = {
 
 const std::string_view SchemaLoader::s_scalarCppType = R"cpp(response::Value)cpp"sv;
 
+// The default value of the reason argument of the @deprecated directive.
+constexpr auto strDefaultReason = "No longer supported"sv;
+
 SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
 	: _customSchema(std::move(customSchema))
 	, _isIntrospection(!_customSchema)
@@ -909,7 +912,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view reason;
+							value.deprecationReason = strDefaultReason;
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&value](const peg::ast_node& arguments) {
@@ -1129,7 +1132,7 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view deprecationReason;
+							std::string_view deprecationReason { strDefaultReason };
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&deprecationReason](const peg::ast_node& arguments) {
-- 
2.43.0


From 86d410ff6411ae81f94d838bdae9a870250458f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 26/40] fix: arguments which are left out take their default,
 even nullable ones

---
 src/IntrospectionSchema.cpp | 14 ++++++--------
 src/SchemaGenerator.cpp     | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/IntrospectionSchema.cpp b/src/IntrospectionSchema.cpp
index ddc9e1a..8935a6f 100644
--- a/src/IntrospectionSchema.cpp
+++ b/src/IntrospectionSchema.cpp
@@ -250,10 +250,9 @@ std::future<service::ResolverResult> Type::resolveFields(service::ResolverParams
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
+	auto argIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", (params.arguments.find("includeDeprecated") == params.arguments.end()
+		? defaultArguments
+		: params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getFields(service::FieldParams(std::move(params), std::move(directives)), std::move(argIncludeDeprecated));
@@ -295,10 +294,9 @@ std::future<service::ResolverResult> Type::resolveEnumValues(service::ResolverPa
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
+	auto argIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", (params.arguments.find("includeDeprecated") == params.arguments.end()
+		? defaultArguments
+		: params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getEnumValues(service::FieldParams(std::move(params), std::move(directives)), std::move(argIncludeDeprecated));
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index e9a5217..70c93ed 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -1870,17 +1870,17 @@ std::string Generator::getArgumentDeclaration(const InputField& argument, const
 	}
 	else
 	{
-		argumentDeclaration << R"cpp(	auto pair)cpp" << argumentName << R"cpp( = )cpp"
-							<< getArgumentAccessType(argument) << R"cpp(::find)cpp"
+		// The default value takes the place of an argument which is missing, but an explicit null or
+		// an invalid value does not fall back to it.
+		argumentDeclaration << R"cpp(	auto )cpp" << prefixToken << argumentName << R"cpp( = )cpp"
+							<< getArgumentAccessType(argument) << R"cpp(::require)cpp"
 							<< getTypeModifiers(argument.modifiers) << R"cpp((")cpp"
-							<< argument.name << R"cpp(", )cpp" << argumentsToken << R"cpp();
-	auto )cpp" << prefixToken
-							<< argumentName << R"cpp( = (pair)cpp" << argumentName << R"cpp(.second
-		? std::move(pair)cpp"
-							<< argumentName << R"cpp(.first)
-		: )cpp" << getArgumentAccessType(argument)
-							<< R"cpp(::require)cpp" << getTypeModifiers(argument.modifiers)
-							<< R"cpp((")cpp" << argument.name << R"cpp(", )cpp" << defaultToken
+							<< argument.name << R"cpp(", ()cpp" << argumentsToken
+							<< R"cpp(.find(")cpp" << argument.name << R"cpp(") == )cpp"
+							<< argumentsToken << R"cpp(.end()
+		? )cpp" << defaultToken
+							<< R"cpp(
+		: )cpp" << argumentsToken
 							<< R"cpp());
 )cpp";
 	}
-- 
2.43.0


From 2a77d28066a64abbfad43b36df67a0613b642063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 27/40] fix: requests do not share the state of the validator
 at the same time

---
 include/graphqlservice/GraphQLService.h | 1 +
 src/GraphQLService.cpp                  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index e912281..e62273a 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -964,6 +964,7 @@ private:
 
 	const TypeMap _operations;
 	std::unique_ptr<ValidateExecutableVisitor> _validation;
+	mutable std::mutex _validationMutex;
 	internal::sorted_map<SubscriptionKey, std::shared_ptr<SubscriptionData>> _subscriptions;
 	internal::sorted_map<SubscriptionName, internal::sorted_set<SubscriptionKey>> _listeners;
 	SubscriptionKey _nextKey = 0;
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 75861b8..4c97eef 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1696,6 +1696,8 @@ Request::~Request()
 
 std::list<schema_error> Request::validate(peg::ast& query) const
 {
+	// All of the requests share the state of one visitor.
+	std::lock_guard validationLock(_validationMutex);
 	std::list<schema_error> errors;
 
 	if (!query.validated)
-- 
2.43.0


From 89403ebc9e71b0cb126321be6ed0d6570ba79baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:47 +0000
Subject: [PATCH 28/40] fix: true, false and null are not enum values

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 3a7d2ef..7bd9383 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -242,7 +242,7 @@ struct bool_value : sor<true_keyword, false_keyword>
 };
 
 // http://spec.graphql.org/June2018/#EnumValue
-struct enum_value : seq<not_at<true_keyword, false_keyword, null_keyword>, name>
+struct enum_value : seq<not_at<sor<true_keyword, false_keyword, null_keyword>>, name>
 {
 };
 
-- 
2.43.0


From d1bdb4bbd4e45a670c3fbd6a4e131f9d81105275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 29/40] fix: schema extensions take directives and operation
 types

---
 include/graphqlservice/internal/Grammar.h | 12 +++++++++---
 src/SyntaxTree.cpp                        |  3 +++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 7bd9383..fbc90be 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -994,15 +994,21 @@ struct schema_extension_start : seq<extend_keyword, plus<ignored>, schema_keywor
 {
 };
 
-struct schema_extension_operation_type_definitions
-	: seq<one<'{'>, star<ignored>, list<operation_type_definition, plus<ignored>>, star<ignored>,
+struct schema_extension_operation_type_definitions_content
+	: seq<star<ignored>, list<operation_type_definition, plus<ignored>>, star<ignored>,
 		  must<one<'}'>>>
 {
 };
 
+struct schema_extension_operation_type_definitions
+	: if_must<one<'{'>, schema_extension_operation_type_definitions_content>
+{
+};
+
 struct schema_extension_content
 	: seq<star<ignored>,
-		  sor<seq<opt<directives>, schema_extension_operation_type_definitions>, directives>>
+		  sor<seq<opt<directives, star<ignored>>, schema_extension_operation_type_definitions>,
+			  directives>>
 {
 };
 
diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index f171357..42a3820 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -702,6 +702,9 @@ template <>
 const std::string ast_control<directive_definition_content>::error_message =
 	"Expected http://spec.graphql.org/June2018/#DirectiveDefinition";
 template <>
+const std::string ast_control<schema_extension_operation_type_definitions_content>::error_message =
+	"Expected http://spec.graphql.org/June2018/#OperationTypeDefinition";
+template <>
 const std::string ast_control<schema_extension_content>::error_message =
 	"Expected http://spec.graphql.org/June2018/#SchemaExtension";
 template <>
-- 
2.43.0


From 1d09c303a2401e530e8cfe7789af033385c71b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 30/40] fix: nothing needs to separate the locations of a
 directive definition

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index fbc90be..0c9efc1 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -967,7 +967,7 @@ struct directive_definition_start
 
 struct directive_definition_content
 	: seq<star<ignored>, one<'@'>, directive_name, opt<star<ignored>, arguments_definition>,
-		  plus<ignored>, on_keyword, plus<ignored>, directive_locations>
+		  star<ignored>, on_keyword, star<ignored>, directive_locations>
 {
 };
 
-- 
2.43.0


From 653ccab77ec462a174ff347801b21a528ca9e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:05 +0000
Subject: [PATCH 31/40] fix: ignored characters may stand between @ and the
 name of a directive

---
 include/graphqlservice/internal/Grammar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 0c9efc1..5a7fc60 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -406,7 +406,7 @@ struct directive_name : name
 {
 };
 
-struct directive_content : seq<directive_name, opt<star<ignored>, arguments>>
+struct directive_content : seq<star<ignored>, directive_name, opt<star<ignored>, arguments>>
 {
 };
 
@@ -966,7 +966,7 @@ struct directive_definition_start
 };
 
 struct directive_definition_content
-	: seq<star<ignored>, one<'@'>, directive_name, opt<star<ignored>, arguments_definition>,
+	: seq<star<ignored>, one<'@'>, star<ignored>, directive_name, opt<star<ignored>, arguments_definition>,
 		  star<ignored>, on_keyword, star<ignored>, directive_locations>
 {
 };
-- 
2.43.0


From c22b022bd8b0c4317a3fd5ae7fa9d4f37972dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:42 +0000
Subject: [PATCH 32/40] fix: a carriage return ends a line, in comments and
 strings too

---
 include/graphqlservice/internal/Grammar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 5a7fc60..8d9bf26 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -65,7 +65,7 @@ struct source_character : sor<one<0x0009, 0x000A, 0x000D>, utf8::range<0x0020, 0
 };
 
 // http://spec.graphql.org/June2018/#sec-Comments
-struct comment : seq<one<'#'>, until<eolf>>
+struct comment : seq<one<'#'>, star<not_one<'\n', '\r'>>>
 {
 };
 
@@ -128,7 +128,7 @@ struct string_escape_sequence : if_must<backslash_token, string_escape_sequence_
 };
 
 struct string_quote_character
-	: plus<not_at<backslash_token>, not_at<quote_token>, not_at<ascii::eol>, source_character>
+	: plus<not_at<backslash_token>, not_at<quote_token>, not_at<one<'\n', '\r'>>, source_character>
 {
 };
 
-- 
2.43.0


From e625851a6d3bf01a95ff7420bb19b66318c1e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:30 +0000
Subject: [PATCH 33/40] fix: list items, selections and definitions need
 nothing between them

---
 include/graphqlservice/internal/Grammar.h | 34 +++++++++++++----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 8d9bf26..cd8bf0b 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -189,8 +189,13 @@ struct integer_part : seq<opt<negative_sign>, sor<zero_digit, seq<nonzero_digit,
 {
 };
 
+// A number must be separated from the characters which would otherwise continue it.
+struct number_lookahead : sor<one<'.'>, identifier_other>
+{
+};
+
 // http://spec.graphql.org/June2018/#IntValue
-struct integer_value : integer_part
+struct integer_value : seq<integer_part, not_at<number_lookahead>>
 {
 };
 
@@ -224,7 +229,8 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>>
+	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>,
+		  not_at<number_lookahead>>
 {
 };
 
@@ -278,7 +284,7 @@ struct argument : if_must<argument_name, argument_content>
 };
 
 struct arguments_content
-	: seq<star<ignored>, list<argument, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<argument, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -290,7 +296,7 @@ struct arguments : if_must<one<'('>, arguments_content>
 struct list_entry;
 
 struct list_value_content
-	: seq<star<ignored>, opt<list<list_entry, plus<ignored>>>, star<ignored>, must<one<']'>>>
+	: seq<star<ignored>, opt<list<list_entry, star<ignored>>>, star<ignored>, must<one<']'>>>
 {
 };
 
@@ -313,7 +319,7 @@ struct object_field : if_must<object_field_name, object_field_content>
 };
 
 struct object_value_content
-	: seq<star<ignored>, opt<list<object_field, plus<ignored>>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, opt<list<object_field, star<ignored>>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -393,7 +399,7 @@ struct variable : if_must<variable_name, variable_content>
 };
 
 struct variable_definitions_content
-	: seq<star<ignored>, list<variable, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<variable, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -416,7 +422,7 @@ struct directive : if_must<one<'@'>, directive_content>
 };
 
 // http://spec.graphql.org/June2018/#Directives
-struct directives : list<directive, plus<ignored>>
+struct directives : list<directive, star<ignored>>
 {
 };
 
@@ -502,7 +508,7 @@ struct selection : sor<field, fragement_spread_or_inline_fragment>
 };
 
 struct selection_set_content
-	: seq<star<ignored>, list<selection, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<selection, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -558,7 +564,7 @@ struct root_operation_definition : if_must<operation_type, root_operation_defini
 
 struct schema_definition_content
 	: seq<opt<star<ignored>, directives>, star<ignored>, one<'{'>, star<ignored>,
-		  list<root_operation_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+		  list<root_operation_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -606,7 +612,7 @@ struct arguments_definition_start : one<'('>
 };
 
 struct arguments_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -631,7 +637,7 @@ struct field_definition : if_must<field_definition_start, field_definition_conte
 };
 
 struct fields_definition_content
-	: seq<star<ignored>, list<field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -806,7 +812,7 @@ struct enum_values_definition_start : one<'{'>
 };
 
 struct enum_values_definition_content
-	: seq<star<ignored>, list<enum_value_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<enum_value_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -882,7 +888,7 @@ struct input_fields_definition_start : one<'{'>
 };
 
 struct input_fields_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -995,7 +1001,7 @@ struct schema_extension_start : seq<extend_keyword, plus<ignored>, schema_keywor
 };
 
 struct schema_extension_operation_type_definitions_content
-	: seq<star<ignored>, list<operation_type_definition, plus<ignored>>, star<ignored>,
+	: seq<star<ignored>, list<operation_type_definition, star<ignored>>, star<ignored>,
 		  must<one<'}'>>>
 {
 };
-- 
2.43.0


From 69ec4e02ecd93098b265622e13916f74614c60f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:18 +0000
Subject: [PATCH 34/40] fix: escape sequences of invalid code points are parse
 errors

---
 src/SyntaxTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 42a3820..1b7417e 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -152,6 +152,11 @@ struct ast_selector<float_value> : std::true_type
 template <>
 struct ast_selector<escaped_unicode> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		// Decode it right away, so a code point which is not valid is a parse error.
+		(void)n->unescaped_view();
+	}
 };
 
 template <>
-- 
2.43.0


From 8db4a26f6907c809801047ddcb0dc98eac194021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:18 +0000
Subject: [PATCH 35/40] fix: variables which are lists of booleans compile

---
 include/graphqlservice/GraphQLClient.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/graphqlservice/GraphQLClient.h b/include/graphqlservice/GraphQLClient.h
index 4893381..83f8e55 100644
--- a/include/graphqlservice/GraphQLClient.h
+++ b/include/graphqlservice/GraphQLClient.h
@@ -129,8 +129,11 @@ struct ModifiedVariable
 		response::Value result { response::Type::List };
 
 		result.reserve(listValue.size());
-		std::for_each(listValue.begin(), listValue.end(), [&result](auto& value) {
-			result.emplace_back(serialize<Other...>(std::move(value)));
+		std::for_each(listValue.begin(), listValue.end(), [&result](auto&& value) {
+			// The elements of a std::vector<bool> are proxies, copy or move them to a real value.
+			typename VariableTraits<Type, Other...>::type element(std::move(value));
+
+			result.emplace_back(serialize<Other...>(std::move(element)));
 		});
 		listValue.clear();
 
-- 
2.43.0


From ce06261911f774c6592f43fc59a64d4e2ee34192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:43 +0000
Subject: [PATCH 36/40] fix: the members of the generated Variables struct have
 the types of the variables

---
 src/ClientGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index fdd6ce2..8cb36e8 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -279,7 +279,10 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 
 		for (const auto& variable : variables)
 		{
-			headerFile << R"cpp(	)cpp" << _schemaLoader.getCppType(variable.type->name())
+			headerFile << R"cpp(	)cpp"
+					   << RequestLoader::getOutputCppType(
+							  _schemaLoader.getCppType(variable.type->name()),
+							  variable.modifiers)
 					   << R"cpp( )cpp" << variable.cppName << R"cpp( {};
 )cpp";
 		}
-- 
2.43.0


From db94775b8426e68831be4651d14744920d83c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:43 +0000
Subject: [PATCH 37/40] fix: generated clients serialize scalar, enum and
 nested input variables

---
 include/ClientGenerator.h |  1 +
 src/ClientGenerator.cpp   | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 36def4f..d7f5a61 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -54,6 +54,7 @@ private:
 	void outputGetRequestImplementation(std::ostream& sourceFile) const noexcept;
 	bool outputModifiedResponseImplementation(std::ostream& sourceFile,
 		const std::string& outerScope, const ResponseField& responseField) const noexcept;
+	static std::string_view getVariablesScope(const RequestSchemaType& type) noexcept;
 	static std::string getTypeModifierList(const TypeModifierStack& modifiers) noexcept;
 
 	const SchemaLoader _schemaLoader;
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 8cb36e8..9d57167 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -546,7 +546,7 @@ response::Value ModifiedVariable<Variables::)cpp"
 					RequestLoader::unwrapSchemaType(inputField->type().lock());
 
 				sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << inputField->name()
-						   << R"cpp()js"s, ModifiedVariable<)cpp"
+						   << R"cpp()js"s, ModifiedVariable<)cpp" << getVariablesScope(type)
 						   << _schemaLoader.getCppType(type->name()) << R"cpp(>::serialize)cpp"
 						   << getTypeModifierList(modifiers) << R"cpp((std::move(inputValue.)cpp"
 						   << SchemaLoader::getSafeCppName(inputField->name()) << R"cpp()));
@@ -628,7 +628,7 @@ response::Value serializeVariables(Variables&& variables)
 		for (const auto& variable : variables)
 		{
 			sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << variable.name
-					   << R"cpp()js"s, ModifiedVariable<Variables::)cpp"
+					   << R"cpp()js"s, ModifiedVariable<)cpp" << getVariablesScope(variable.type)
 					   << _schemaLoader.getCppType(variable.type->name()) << R"cpp(>::serialize)cpp"
 					   << getTypeModifierList(variable.modifiers)
 					   << R"cpp((std::move(variables.)cpp" << variable.cppName << R"cpp()));
@@ -813,6 +813,13 @@ template <>
 	return true;
 }
 
+std::string_view Generator::getVariablesScope(const RequestSchemaType& type) noexcept
+{
+	// Only the input object structs are declared inside of the Variables struct.
+	return type->kind() == introspection::TypeKind::INPUT_OBJECT ? R"cpp(Variables::)cpp"sv
+																 : std::string_view {};
+}
+
 std::string Generator::getTypeModifierList(const TypeModifierStack& modifiers) noexcept
 {
 	if (modifiers.empty())
-- 
2.43.0


From 9227af75d129d68ca55c3d4ba5c85271eb9e9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:43 +0000
Subject: [PATCH 38/40] fix: nested input types are declared before the lists
 and non-null fields using them

---
 src/RequestLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 73c7b90..ca0daba 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -857,7 +857,7 @@ void RequestLoader::reorderInputTypeDependencies() noexcept
 			std::for_each(fields.begin(),
 				fields.end(),
 				[&result](const std::shared_ptr<const schema::InputValue>& field) noexcept {
-					const auto fieldType = field->type().lock();
+					const auto fieldType = unwrapSchemaType(field->type().lock()).first;
 
 					if (fieldType->kind() == introspection::TypeKind::INPUT_OBJECT)
 					{
-- 
2.43.0


From 872f017c4c55b7baabd73f0d99c546b4166a6107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:39 +0000
Subject: [PATCH 39/40] fix: arguments of fields with built-in types are
 checked like all others

---
 src/SchemaLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index ee6aedc..7cbd9fa 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -400,6 +400,8 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 			entry.accessor = *accessor;
 		}
 
+		fixupInputFieldList(entry.arguments);
+
 		if (s_builtinTypes.find(entry.type) != s_builtinTypes.cend())
 		{
 			continue;
@@ -458,8 +460,6 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 				throw std::runtime_error(error.str());
 			}
 		}
-
-		fixupInputFieldList(entry.arguments);
 	}
 }
 
-- 
2.43.0


From fa50bd6d34e092c558b6c239ac4cae923f477758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:39 +0000
Subject: [PATCH 40/40] fix: the types of the arguments of directives are
 checked

---
 src/SchemaLoader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 7cbd9fa..48e0a1d 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -222,6 +222,11 @@ void SchemaLoader::validateSchema()
 		fixupInputFieldList(entry.fields);
 	}
 
+	for (auto& entry : _directives)
+	{
+		fixupInputFieldList(entry.arguments);
+	}
+
 	// Handle nested input types by fully declaring the dependencies first.
 	reorderInputTypeDependencies();
 
-- 
2.43.0

