F="src/Validation.cpp"
def B(id,prop,old,new,docs,needs,breaks,**k): return dict(id=id,prop=prop,file=F,old=old,new=new,docs=docs,needs=needs,breaks=breaks,**k)
BUGS=[
B("cycles-remembered","C02","	_fragmentCycles.clear();\n","", ["2{ dog { ...a } } fragment a on Dog { ...a }"]*2,"two documents with a cycle through a fragment of the same name","the second document's cycle is not reported"),
B("stack-after-unsupported","C02","	_scopedType.reset();\n	_fragmentStack.clear();\n	_selectionFields.clear();\n}","	_scopedType.reset();\n	_selectionFields.clear();\n}",
 ["+{ dog { ...a } } fragment a on Dog { name }","+{ dog { ...a ...b } } fragment a on Dog { name } fragment b on Dog { ...a }", "+fragment a on Dog { name } { dog { ...a } }","+fragment a on Dog { name } fragment b on Dog { ...a } { dog { ...b } }"],"fragments defined before the operation that spreads them","the spread is reported as a cycle"),
B("referenced-when-outermost","C15","	_fragmentStack.erase(name);\n\n	_referencedFragments.emplace(name);","	_fragmentStack.erase(name);\n\n	if (_fragmentStack.empty())\n	{\n		_referencedFragments.emplace(name);\n	}",
 ["+{ dog { ...b } } fragment b on Dog { ...a } fragment a on Dog { name }"],"a fragment only spread inside another fragment","it is reported as unused"),
B("map-equality-by-names","C19","	return values == other.values;\n}\n\nValidateArgumentValue::ValidateArgumentValue(ValidateArgumentVariable&&","	return values.size() == other.values.size();\n}\n\nValidateArgumentValue::ValidateArgumentValue(ValidateArgumentVariable&&",
 ['-{ a: findDog(complex: {name: "x"}) { name } a: findDog(complex: {name: "y"}) { name } }'],"two fields with one response name whose arguments are input objects of the same size and different content","the conflict is not reported"),
B("list-elements-keep-default","C17","				if (!validateInputValue(false, value, ofType))","				if (!validateInputValue(hasNonNullDefaultValue, value, ofType))",
 ['-query ($b: Boolean! = true) { arguments { nonNullBooleanListField(nonNullBooleanListArg: [null]) } }',"-query q($l: [Boolean!]! = [true, null]) { booleanList(booleanListArg: $l) }","+{ booleanList(booleanListArg: [true]) }"],"x","y"),
B("variable-list-keeps-nonnull","C16","			return validateVariableType(false, variableOfType, position, inputOfType);","			return validateVariableType(isNonNull, variableOfType, position, inputOfType);",
 ["-query q($l: [Boolean]!) { booleanList(booleanListArg: $l) }","-query q($l: [Boolean]) { booleanList(booleanListArg: $l) }"],"a non-null list variable of nullable elements used where a list of non-null elements is expected","the variable is accepted"),
B("variable-nonnull-sticks","C16","			return validateVariableType(false, variableType, position, ofType);","			return validateVariableType(isNonNull, variableType, position, ofType);",
 ["-query q($l: [Boolean]!) { arguments { nonNullBooleanListField(nonNullBooleanListArg: $l) } }"],"x","y"),
B("directive-conflict-ends","C18","			_errors.push_back({ message.str(), { position.line, position.column } });\n			continue;\n		}\n\n		auto itrDirective","			_errors.push_back({ message.str(), { position.line, position.column } });\n			break;\n		}\n\n		auto itrDirective",
 ["2{ dog @include(if: true) @include(if: true) @unknown { name } }"],"a repeated directive followed by another wrong directive","the later directive is not validated"),
B("anonymous-any-count","C14","	if (_operationDefinitions.size() > 1)","	if (_operationDefinitions.size() > 2)",["-{ dog { name } } query q { dog { name } }","-{ dog { name } } query q { dog { name } } query r { dog { name } }"],"x","y"),
B("input-field-null-default","C17","				if (entry.second.value || !itrField->second.defaultValue)","				if (entry.second.value)",
 ["-{ findDog(complex: {name: null, name: \"x\"}) { name } }"],"x","y"),
B("unknown-fields-of-unions","C19","			if (name != R\"gql(__typename)gql\"sv)\n			{\n				// http","			if (name.empty() || name.substr(0, 2) != R\"gql(__)gql\"sv)\n			{\n				// http",["-{ catOrDog { __other } }"],"a field with a reserved name on a union","it is accepted"),
B("alias-key","C19","	if (alias.empty())\n	{\n		alias = name;\n	}\n\n	Validate","	if (alias.empty() || alias == innerType->get().name())\n	{\n		alias = name;\n	}\n\n	Validate",["-{ dog { Boolean: isHousetrained(atOtherHomes: true) Boolean: doesKnowCommand(dogCommand: SIT) } }"],"an alias that is the name of the field's type","conflicting fields are accepted"),
]
