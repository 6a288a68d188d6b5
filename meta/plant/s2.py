F="src/Validation.cpp"
def B(id,prop,old,new,docs,needs,breaks,**k): return dict(id=id,prop=prop,file=F,old=old,new=new,docs=docs,needs=needs,breaks=breaks,**k)
BUGS=[
B("merge-any-abstract","C19","		&& ((objectType && other.objectType && &objectType->get() != &other.objectType->get())","		&& (((objectType || other.objectType) && (!objectType || !other.objectType || &objectType->get() != &other.objectType->get()))",["-{ pet { x: name ... on Dog { x: nickname } } }","-{ pet { ... on Dog { x: nickname } ... on Cat { x: nickname } ... on Pet { x: name } } }","-{ dog { a: isHousetrained(atOtherHomes: true) ... on Pet { a: __typename } } }"],"x","y"),
B("typename-args","C19","	return (returnType == other.returnType)","	return (fieldName == other.fieldName || returnType == other.returnType)",["-{ pet { ... on Dog { x: doesKnowCommand(dogCommand: SIT) } ... on Cat { x: nickname } } }","-{ a: pet { name } a: dog { name } }"],"x","y"),

B("scope-lost-after-undefined-spread","C15","	auto outerType = std::move(_scopedType);\n\n	_fragmentStack.emplace(name);\n	_scopedType = itrInner->second;\n\n	visitSelection(selection);\n\n	_scopedType = std::move(outerType);",
  "	auto outerType = std::move(_scopedType);\n\n	_fragmentStack.emplace(name);\n	_scopedType = itrInner->second;\n\n	visitSelection(selection);\n\n	if (_fragmentStack.size() == 1)\n	{\n		_scopedType = std::move(outerType);\n	}",
  ["-{ pet { ...p } } fragment p on Pet { ...d nickname } fragment d on Dog { nickname }"],"a fragment on an object type spread inside a fragment on an interface, followed by a field of the object type only","the enclosing type of the outer fragment is not restored, so undefined fields are accepted"),
B("subscription-only-named","C14","	if (_fieldCount > 1 && operationType == strSubscription)","	if (_fieldCount > 1 && operationType == strSubscription && !_fragmentStack.size() && operationName.size() != 1)",
  ["-subscription s { newMessage { body } disallowedSecondRootField }"],"a subscription operation with a one-letter name","its second root field is accepted"),
B("enum-as-string","C17","			if (!std::holds_alternative<ValidateArgumentEnumValue>(argument.value->data))\n			{","			if (!std::holds_alternative<ValidateArgumentEnumValue>(argument.value->data)\n				&& std::holds_alternative<ValidateArgumentMap>(argument.value->data))\n			{",["-{ dog { doesKnowCommand(dogCommand: 3) } }"],"an int literal for an enum","get throws"),
B("int-list-int","C17","				if (!std::holds_alternative<response::IntType>(argument.value->data))\n","				if (!std::holds_alternative<response::IntType>(argument.value->data)\n					&& !(std::holds_alternative<response::FloatType>(argument.value->data) && hasNonNullDefaultValue))\n",["+{ arguments { intArgField(intArg: 1) } }","-{ arguments { intArgField(intArg: 1.5) } }"],"x","y"),
B("fragment-directive-location","C18","	peg::on_first_child<peg::directives>(inlineFragment, [this](const peg::ast_node& child) {\n		visitDirectives(introspection::DirectiveLocation::INLINE_FRAGMENT, child);","	peg::on_first_child<peg::directives>(inlineFragment, [this](const peg::ast_node& child) {\n		visitDirectives(introspection::DirectiveLocation::FIELD, child);",["-{ dog { ... @include(if: true) @unknown { name } } }","1{ dog { ... @other { name } } }"],"x","y"),
B("variable-referenced-on-error","C16","			_referencedVariables.emplace(variable.name);\n\n			return validateVariableType(","			if (itrVariable->second.type && itrVariable->second.type->get().kind() != introspection::TypeKind::LIST)\n			{\n				_referencedVariables.emplace(variable.name);\n			}\n\n			return validateVariableType(",["+query q($l: [Boolean!]) { booleanList(booleanListArg: $l) }"],"a variable whose declared type is a list that may be null","it is reported as unused"),
B("default-null-counts","C16","					variableArgument.nonNullDefaultValue = argument.value != nullptr;","					variableArgument.nonNullDefaultValue = true;",["-query q($b: Boolean = null) { arguments { nonNullBooleanArgField(nonNullBooleanArg: $b) } }"],"a nullable variable with default value null used where the type is non-null","it is accepted"),
B("leaf-selection-list","C19","	if (subFieldCount == 0 && !isScalarType(innerType->get().kind()))","	if (subFieldCount == 0 && (selection == nullptr || _fieldCount == 0)\n		&& !isScalarType(innerType->get().kind()))",["-{ dog { ... on Dog @unknown { x } } }"],"x","y"),
B("dup-fragment-last-wins","C15","			if (!inserted.second)\n			{\n				// http://spec.graphql.org/June2018/#sec-Fragment-Name-Uniqueness","			if (!inserted.second && inserted.first->second.get().children.size() != fragmentDefinition.children.size())\n			{\n				// http",["-{ dog { ...a } } fragment a on Dog { name } fragment a on Dog { name }"],"x","y"),
]
